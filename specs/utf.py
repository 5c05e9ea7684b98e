"""UTF conversions (Unicode table 3-7, RFC 3629) and single characters in JSON."""
import z3
from vcgen.terms import *
from vcgen.task import *
from .json_tok import *
from .json_lit import GEN as LGEN
from . import callee
from .callee import DECODER
K = lambda k: bv(k, 64)
BAD = bv(0xffffffff, 32)
def surrogate(c): return AND(ule(bv(0xD800, 32), c), ule(c, bv(0xDFFF, 32)))
def scalar(c): return AND(NOT(surrogate(c)), ule(c, bv(0x10FFFF, 32)))
def low(c): return AND(ule(bv(0xDC00, 32), c), ule(c, bv(0xDFFF, 32)))
def encode(r):
    rec = r.record(); c = r.value('c', 32); t, to = r.cell('t', 4)
    r.call(rec, c, t)
    bs, n = cp_utf8(c)
    r.post('a scalar value has its shortest encoding length', eq(r.end, n), scalar(c))
    # known finding: unpaired low surrogates are encoded in three bytes
    r.post('nothing else is encoded', eq(r.end, K(0)), NOT(OR(scalar(c), low(c))))
    r.post('low surrogate: not encoded, or as the known finding says', OR(eq(r.end, K(0)), eq(r.end, K(3))), low(c))
    got = [r.get(to, i, 8) for i in range(4)]
    for i in range(4): r.post('byte %d of the encoding' % i, eq(got[i], bs[i]), AND(scalar(c), ult(K(i), n)))
    # lemma over the two contracts: what is encoded decodes to the same code point
    def f(i):
        x = bv(0, 8)
        for k in range(4): x = ite(eq(i, K(k)), bs[k], x)
        return x
    v, m, b = utf8_seq(f, n, K(0))
    r.post('lemma: the encoding is well-formed and decodes to the code point', AND(v, eq(m, n), eq(utf8_cp(b, m), c)), scalar(c))
def check(r):
    rec = r.record(); b, e, IN = r.input(); N, f = IN.n, IN.fn
    r.assume(ult(K(0), N))
    r.call(rec, b, e)
    v, n, _ = utf8_seq(f, N, K(0))
    r.post('the length of a well-formed sequence, else zero', eq(r.end, ite(AND(v, ule(bv(0x80, 8), f(K(0)))), n, K(0))))
def nv_seq(f, N, i):
    """sequence accepted without validation: lead and continuation bit patterns only"""
    b = [f(add(i, K(k))) for k in range(4)]; left = sub(N, i)
    c = lambda k: eq(b[k] & bv(0xC0, 8), bv(0x80, 8))
    v1 = ult(b[0], bv(0x80, 8)); v2 = AND(inr(b[0], 0xC0, 0xDF), ule(K(2), left), c(1))
    v3 = AND(inr(b[0], 0xE0, 0xEF), ule(K(3), left), c(1), c(2)); v4 = AND(inr(b[0], 0xF0, 0xF7), ule(K(4), left), c(1), c(2), c(3))
    return OR(v1, v2, v3, v4), ite(v1, K(1), ite(v2, K(2), ite(v3, K(3), K(4)))), b
def char_tok(f, N, i, validate=True):
    """one character or escape: (valid, length, code point)"""
    esc = eq(f(i), bv(0x5c, 8)); ev, en, cp = escape(f, N, i)
    uv, un, ub = (utf8_seq if validate else nv_seq)(f, N, i)
    return AND(ult(i, N), ite(esc, ev, uv)), ite(esc, en, un), ite(esc, cp, utf8_cp(ub, un))
def decode(validate):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', 4); b, e, IN = r.input(); N, f = IN.n, IN.fn
        r.call(rec, t, b, e)
        v, n, cp = char_tok(f, N, K(0), validate)
        r.post('accepted exactly when a character or an escape is there', r.ok == v)
        r.post('exactly it is consumed', eq(r.end, n), r.ok)
        r.post('the code point is exact', eq(r.get(to, 0, 32), cp), r.ok)
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        r.post('end stays inside the input', ule(r.end, N))
    return spec
TOP = {True: 0x10FFFF, False: 0x1FFFFF}
def tok_of(r, IN, validate=True):
    N, f = IN.n, IN.fn
    r.tok = r.opaque('tok', [0, 64, 32], lambda p: char_tok(f, N, p, validate), callee.tok_lemma(N, TOP[validate], 12)); r.tokIN = IN
    return r.tok
def lemma(validate):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', 4); b, e, IN = r.input(); N, f = IN.n, IN.fn; p = r.value('p', 64)
        for x in callee.tok_lemma(N, TOP[validate], 12)(p, char_tok(f, N, p, validate)): r.post('lemma: a character lies inside the input', x)
        for x in callee.esc_lemma(N, f)(p, escape_body(f, N, p)): r.post('lemma: an escape lies inside the input', x)
        for x in callee.seq_lemma(N, f)(p, callee.seq_def(f, N, p)): r.post('lemma: a sequence lies inside the input', x)
    return spec
def esc(r):
    rec = r.record(); t, to = r.cell('t', 4); b, e, IN = r.input(); N, f = IN.n, IN.fn
    r.call(rec, t, b, e)
    v, n, cp = escape_body(f, N, K(0))
    r.post('accepted exactly when an escape is there', r.ok == v)
    r.post('exactly it is consumed', eq(r.end, n), r.ok)
    r.post('the code point is exact', eq(r.get(to, 0, 32), cp), r.ok)
    r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
    r.post('end stays inside the input', ule(r.end, N))
def read_char(w, maxv, rewinds=True):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', w // 8); b, e, IN = r.input(); N, f = IN.n, IN.fn; tok = tok_of(r, IN)
        W = r.first(IN, K(0), is_ws).pos
        p = add(W, K(1)); v, n, cp = tok.at(p)
        Q_ = r.first(IN, ite(v, add(p, n), K(0)), is_ws, 'Q')    # white space may precede the closing quote
        r.call(rec, t, b, e)
        quote = bv(0x22, 8)
        op = AND(ult(W, N), eq(f(W), quote))
        Q = Q_.pos
        good = AND(op, v, ule(cp, bv(maxv, 32)), ult(Q, N), eq(f(Q), quote))
        r.post('accepted exactly when it is a quoted character that fits', r.ok == good)
        r.post('accepted: the value is exact', eq(r.get(to, 0, w), trunc(cp, w) if w < 32 else cp), r.ok)
        r.post('accepted: end is right after the closing quote', eq(r.end, add(Q, K(1))), r.ok)
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        r.post('end stays inside the input', ule(r.end, N))
    return spec
HEX = b'0123456789abcdef'
def jchar(c):
    """JSON escaping of one byte/code unit below 0x80: list of 6 bytes and a length"""
    named = {8: b'\\b', 9: b'\\t', 10: b'\\n', 12: b'\\f', 13: b'\\r', 0x22: b'\\"', 0x5c: b'\\\\'}
    lo = extract(3, 0, c); hi = ite(ult(c, bv(16, c.size())), bv(0x30, 8), bv(0x31, 8))
    lod = zext(lo, 8); h = ite(ult(lod, bv(10, 8)), add(lod, bv(0x30, 8)), add(lod, bv(0x57, 8)))
    u = [bv(0x5c, 8), bv(0x75, 8), bv(0x30, 8), bv(0x30, 8), hi, h]
    ctl = ult(c, bv(0x20, c.size()))
    out = [ite(ctl, u[k], trunc(c, 8) if c.size() > 8 else c) for k in range(6)]; n = ite(ctl, K(6), K(1))
    for k, s in named.items():
        is_ = eq(c, bv(k, c.size()))
        out[0] = ite(is_, bv(s[0], 8), out[0]); out[1] = ite(is_, bv(s[1], 8), out[1]); n = ite(is_, K(2), n)
    return out, n
def wenc(w):
    """quoted character: (encodable, bytes, length); known findings: an unpaired low surrogate is written in three
    bytes, a char32_t or wchar_t that is no code point is written as an empty string"""
    def enc(c):
        o, n = jchar(c)
        if w > 8:
            x = zext(c, 32) if w < 32 else c
            u, un = cp_utf8(x); un = ite(OR(scalar(x), low(x)), un, K(0)); big = ule(bv(0x80, w), c)
            o = [ite(big, u[k], o[k]) if k < 4 else o[k] for k in range(6)]; n = ite(big, un, n)
        m = add(n, K(2)); out = [bv(0x22, 8)]
        for k in range(7): out.append(ite(eq(n, K(k)), bv(0x22, 8), o[k]) if k < 6 else bv(0x22, 8))
        ok = T if w == 8 else scalar(zext(c, 32) if w < 32 else c)
        return ok, out, m
    return enc
def dev(w, c):
    x = zext(c, 32) if w < 32 else c
    return F if w == 8 else low(x) if w == 16 else NOT(scalar(x))
def write_char_s(w):
    def spec(r):
        r.ghost_init(); rec = r.record(); c = r.value('v', w); ok, bs, n = wenc(w)(c)
        r.call(rec, c); g = r.st.gh
        r.post('succeeds exactly when it is a code point and the sink accepts everything', r.ok == AND(ok, NOT(g['ofail'])), OR(ok, NOT(dev(w, c))))
        r.post('not a code point: refused, or as the known findings say', NOT(r.ok), AND(NOT(ok), NOT(dev(w, c))))
        for i in range(8): r.post('byte %d' % i, eq(g['oJ'], bs[i]), AND(r.ok, eq(r.J, K(i)), ult(K(i), n)))
        r.post('writes exactly its length', eq(g['olen'], n), r.ok)
    return spec
def write_char_b(w):
    def spec(r):
        rec = r.record(); c = r.value('v', w); b, e, o = r.buffer(); ok, bs, n = wenc(w)(c)
        r.call(rec, c, b, e)
        r.post('succeeds exactly when it is a code point and fits', r.ok == AND(ok, ule(n, o.n)), OR(ok, NOT(dev(w, c))))
        r.post('end is right after the text', eq(r.end, n), r.ok)
        for i in range(8): r.post('byte %d' % i, eq(r.byte(o, K(i)), bs[i]), AND(ok, ult(K(i), r.end)))
        r.post('end stays inside the output', ule(r.end, o.n))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
    return spec
GEN = {'IN': [b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f', b'\xed\xa0\x80', b'\xed\x9f\xbf', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe0\x9f\xbf', b'\xe0\xa0\x80', b'\xf0\x8f\xbf\xbf', b'\xff', b'\xee\x80\x80', b'\xef\xbf\xbf', b'\x80', b'\xbf', b'a', b'"', b'\\n', b'\\u', b'\\u00e9', b'\\uD83D\\uDE00', b'\\ud83d', b'\\ude00', b'12aF', b'\\x', b'\\', b'\x00', b'\xf1\x80\x80\x80', b'\xf8']}
EGEN = {'IN': [b'"', b'\\', b'/', b'n', b'u', b'uD83D', b'u00e9', b'd83d', b'\\u', b'DE00', b'0', b'f', b'F', b'g', b'x', b' ']}
def qgen(rng):
    from vcgen.concrete import gen_bytes
    class X: gen = GEN
    b = gen_bytes(rng, X, 'IN', 1, 8); k = rng.random()
    return (b' ' if rng.random() < .1 else b'') + (b'"' if k < .95 else b'') + (rng.choice(GEN['IN']) if rng.random() < .6 else b) + rng.choice([b'"', b'"', b'"', b' "', b'', b'x'])
TASKS = [Task('utf.lemma.' + n, 'utf', 'dec_' + n, lemma(v), ['P'], gen=GEN) for n, v in (('v', True), ('nv', False))] + [Task('utf.encode.char', 'utf', 'enc8', encode, ['P']),
         Task('utf.check.random_access', 'utf', 'chk_ra', check, ['P'], gen=GEN), Task('utf.check.forward', 'utf', 'chk_fwd', check, ['P'], gen=GEN)]
for k, p in (('random_access', 'esc_'), ('forward', 'escf_'), ('input', 'esci_')): TASKS.append(Task('utf.escape.' + k, 'utf', p + 'v', esc, ['P'], gen=EGEN))
for n, v in (('v', True), ('nv', False)):
    for k, p in (('random_access', 'dec_'), ('forward', 'decf_'), ('input', 'deci_')):
        TASKS.append(Task('utf.decode.%s.%s' % (k, n), 'utf', p + n, decode(v), ['P'], gen=GEN))
for n, w, m in (('ch', 8, 0xFF), ('c16', 16, 0xFFFF), ('c32', 32, 0x10FFFF), ('wc', 32, 0x10FFFF)):
    for k, p in (('read', 'rd_'), ('read_forward', 'rf_'), ('read_input', 'ri_')):
        TASKS.append(Task('utf.char.%s.%s' % (k, n), 'utf', p + n, read_char(w, m), ['P'], gen={'IN': qgen}, callee=DECODER))
    TASKS.append(Task('utf.char.write_sink.' + n, 'utf', 'ws_' + n, write_char_s(w), ['P']))
    TASKS.append(Task('utf.char.write.' + n, 'utf', 'wb_' + n, write_char_b(w), ['P']))
