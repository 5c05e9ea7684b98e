"""JSON strings: decoding and encoding."""
import z3
from vcgen.terms import *
from vcgen.task import *
from .json_tok import *
from . import callee

SGEN = {'IN': [b'"', b'"', b'"', b'\\', b'\\u', b'\\ud83d\\ude00', b'\\ud83d', b'\\ude00', b'd8', b'DC', b'00', b'a', b'bcd', b'\\n', b'\\t', b'\\/', b'/', b'\\"', b'\\\\', b'\\x', b'\x1f', b'\x00', b'\x7f',
  b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f', b'\xed\xa0\x80', b'\xed\x9f\xbf', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe0\x9f\xbf', b'\xe0\xa0\x80', b'\xf0\x8f\xbf\xbf', b'\xff', b' ', b'\n', b'\t', b"'", b'\\u0000', b'\\u00e9', b'\\u20AC', b'\\uFFFF', b'\\uabcd', b'\\uD7FF', b'\\uE000']}
def sgen(rng):
    from vcgen.concrete import gen_bytes
    class X: gen = SGEN
    b = gen_bytes(rng, X, 'IN', 1, 200)
    k = rng.random()
    if k < .8: b = b'"' + b.replace(b'"', b'') 
    if k < .6: b += b'"'
    return b
def read_str(validate):
    def spec(r):
        r.ghost_init(); rec = r.record(); b, e, IN = r.input(); N = IN.n; f = IN.fn
        # leading white space: ws = first byte that is not white space
        start = bv(1, 64)
        quoted = AND(ult(bv(0, 64), N), eq(f(bv(0, 64)), bv(0x22, 8)))
        r.assume(OR(eq(N, bv(0, 64)), NOT(is_ws(f(bv(0, 64))))))
        esc, seq = callee.opaque_esc(r, IN), callee.opaque_seq(r, IN)
        tok = lambda f, N, i: str_tok8(f, N, i, validate, esc, seq)
        c = r.chain(IN, start, tok)
        r.call(rec, b, e); g = r.st.gh
        q = sub(r.end, bv(1, 64))
        c.inst(q); c.inst(r.end)
        c.tok_lemma()
        r.post('accepted: the text is a quoted chain of valid elements', AND(quoted, c.at(q), ult(q, N), eq(f(q), bv(0x22, 8)), ule(bv(1, 64), q)), r.ok)
        r.post('accepted: the decoded length is exact', eq(g['olen'], c.dl(q)), r.ok)
        r.post('accepted: every decoded byte is exact', eq(g['oJ'], c.eo(r.J)), AND(r.ok, ult(r.J, g['olen'])))
        r.post('accepted: the container took every byte', NOT(g['ofail']), r.ok)
        v = tok(f, N, r.end)[0]
        stuck = AND(c.at(r.end), OR(uge(r.end, N), AND(NOT(v), NOT(eq(f(r.end), bv(0x22, 8))))))
        r.post('rejected: no opening quote, an invalid element, no closing quote, or a full container', OR(NOT(quoted), stuck, g['ofail']), NOT(r.ok))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        r.post('end stays inside the input', ule(r.end, N))
    return spec
def esc_tok(ch, strict=False):
    """one byte of a string -> its JSON escape, or itself; with `strict` the line and paragraph separators are escaped too"""
    def tok(f, N, i):
        c = f(i); v = ch(c); n, on, o = bv(1, 64), v[0], v[1:]
        if strict:
            ls = AND(eq(c, B8(0xE2)), ule(bv(3, 64), sub(N, i)), eq(f(add(i, bv(1, 64))), B8(0x80)), OR(*[eq(f(add(i, bv(2, 64))), B8(k)) for k in (0xA8, 0xA9)]))
            lo = [0x5C, 0x75, 0x32, 0x30, 0x32]
            o = [ite(ls, B8(lo[k]) if k < 5 else ite(eq(f(add(i, bv(2, 64))), B8(0xA8)), B8(0x38), B8(0x39)), o[k]) for k in range(6)]
            n, on = ite(ls, bv(3, 64), n), ite(ls, bv(6, 64), on)
        return ult(i, N), n, o, on
    return tok
def esc8(kind):
    def spec(r):
        r.ghost_init(); rec = r.record(); c = r.value('c', 8)
        r.call(rec, c); g = r.st.gh; v = callee.esc_char(c)
        if kind == 'none': r.assume(NOT(g['ofail'])); r.post('succeeds', r.ok)
        else: r.post('fails exactly when the output refuses', r.ok == NOT(g['ofail']))
        r.post('the length is that of the escape', eq(g['olen'], v[0]), r.ok)
        r.post('the bytes are those of the escape', eq(g['oJ'], callee.pick_byte(v[1:], r.J)), AND(r.ok, ult(r.J, v[0])))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        r.post('lemma: what callers may know of an escape', AND(*callee.esc_char_lemma(zext(c, 64), v)))
    return spec
def write_str(strict=False, kind='bool'):
    def spec(r):
        r.ghost_init(); rec = r.record(); b, e, IN = r.input(); N = IN.n
        c = r.chain(IN, bv(0, 64), esc_tok(callee.opaque_esc_char(r), strict), pre=[B8(0x22)], grow=6, total=not strict)
        r.call(rec, b, e); g = r.st.gh
        c.inst(N); c.tok_lemma(); L = c.dl(N)
        if kind == 'none': r.assume(NOT(g['ofail']))
        r.post('fails exactly when the output refuses a byte', r.ok == NOT(g['ofail']))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        r.post('the length is that of the escaped text and the quotes', AND(c.at(N), eq(g['olen'], add(L, bv(1, 64)))), r.ok)
        r.post('opening quote, then every byte escaped or copied, in order', eq(g['oJ'], c.eo(r.J)), AND(r.ok, ult(r.J, L)))
        r.post('closing quote', eq(g['oJ'], B8(0x22)), AND(r.ok, eq(r.J, L)))
    return spec
WGEN = {'IN': [b'"', b'\\', b'a', b'bcdefghij', b'0123456789abcdef', b'\x1f', b'\x00', b'\n', b'\t', b'\x7f', b"'", b'/', b' ', b'\xff', b'\xe2\x80\xa8', b'\xe2\x80\xa9', b'\xe2\x80', b'\xe2', b'\x08', b'\x0b', b'\x0c', b'\r', b'\x1b', b'\xc3\xa9']}
def uge(a, b): return ule(b, a)
TASKS = [
  Task('json.str.read', 'json_str', 'js_rd', read_str(True), ['P'], gen={'IN': sgen}, weight=9, callee=callee.STRING),
  Task('json.str.read_nv', 'json_str', 'js_rd_nv', read_str(False), ['P'], gen={'IN': sgen}, weight=9, callee=callee.STRING),
  # the vectorised copy of runs is beyond the prover's time budget: evaluated on generated inputs only
  Task('json.strw.sink', 'json_str', 'js_wr', write_str(), ['P'], gen=WGEN, weight=5, bounded='generated strings, 25 s', native=25),
  Task('json.strw.sink_nosimd', 'json_str', 'js_wr', write_str(), ['P'], gen=WGEN, weight=5, defs='-DCXON_USE_SIMD=0', callee=callee.WRITER),
  Task('json.strw.strict_js', 'json_str', 'js_wr_sj', write_str(True), ['P'], gen=WGEN, weight=5, callee=callee.WRITER),
  Task('json.strw.push', 'json_str', 'js_wr_p', write_str(False, 'none'), ['P'], gen=WGEN, weight=5, bounded='generated strings, 25 s', native=25),
  Task('json.strw.escape.sink', 'json_str', 'e8', esc8('bool'), ['P']),
  Task('json.strw.escape.strict_js', 'json_str', 'e8_sj', esc8('bool'), ['P']),
  Task('json.strw.escape.push', 'json_str', 'e8_p', esc8('none'), ['P']),
]
