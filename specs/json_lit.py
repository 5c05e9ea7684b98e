"""JSON literals and white space (RFC 8259 sections 2 and 3)."""
import z3
from vcgen.terms import *
from vcgen.task import *
from .json_tok import is_ws
from .cbor_fp import write_b, write_s

K = lambda k: bv(k, 64)
def lit_at(f, N, i, s):
    return AND(ule(i, N), ule(K(len(s)), sub(N, i)), *[eq(f(add(i, K(k))), bv(c, 8)) for k, c in enumerate(s)])
def read_lit(bool_, rewinds=True):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', 1 if bool_ else 8); b, e, IN = r.input(); N, f = IN.n, IN.fn
        W = r.first(IN, K(0), is_ws).pos
        r.call(rec, t, b, e)
        if bool_:
            pos, neg = lit_at(f, N, W, b'true'), lit_at(f, N, W, b'false')
            good = OR(pos, neg); n = ite(pos, K(4), K(5))
            r.post('the value is the one written', eq(r.get(to, 0, 8), ite(pos, bv(1, 8), bv(0, 8))), r.ok)
        else:
            good = lit_at(f, N, W, b'null'); n = K(4)
        r.post('accepted exactly when the literal follows the white space', r.ok == good)
        r.post('exactly the literal is consumed', eq(r.end, add(W, n)), r.ok)
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        if rewinds: r.post('a rejected token is where the position stays', eq(r.end, W), NOT(r.ok))
        else: r.post('a rejected token ends inside the input', AND(ule(W, r.end), ule(r.end, N)), NOT(r.ok))
    return spec
TRUE, FALSE, NULL = b'true', b'false', b'null'
def write_bool_b(r):
    rec = r.record(); t = r.value('v', 1); b, e, o = r.buffer()
    r.call(rec, t, b, e)
    n = ite(t, K(4), K(5))
    r.post('succeeds exactly when the literal fits', r.ok == ule(n, o.n))
    r.post('end is right after the literal', eq(r.end, n), r.ok)
    for i in range(5): r.post('byte %d of the literal' % i, eq(r.byte(o, K(i)), ite(t, bv((TRUE + b'\0')[i], 8), bv(FALSE[i], 8))), AND(r.ok, ult(K(i), n)))
    for i in range(5): r.post('byte %d of a partial write' % i, eq(r.byte(o, K(i)), ite(t, bv((TRUE + b'\0')[i], 8), bv(FALSE[i], 8))), AND(NOT(r.ok), ult(K(i), r.end)))
    r.post('end stays inside the output', ule(r.end, o.n))
    r.post('a failed write reports output_failure', eq(r.ec, bv(1, 32)), NOT(r.ok))
    j = r.univ('j')
    r.post('bytes after the literal are not touched', eq(r.byte(o, j), o.init.read(j)), AND(ult(j, o.n), ule(n, j)))
def write_bool_s(kind='bool'):
    def spec(r):
        r.ghost_init(); rec = r.record(); t = r.value('v', 1)
        r.call(rec, t); g = r.st.gh
        n = ite(t, K(4), K(5))
        if kind != 'none': r.post('succeeds exactly when the sink accepts everything', r.ok == NOT(g['ofail']))
        else: r.assume(NOT(g['ofail'])); r.post('succeeds', r.ok)
        for i in range(5): r.post('byte %d of the literal' % i, eq(g['oJ'], ite(t, bv((TRUE + b'\0')[i], 8), bv(FALSE[i], 8))), AND(r.ok, eq(r.J, K(i)), ult(K(i), n)))
        r.post('writes exactly its length', eq(g['olen'], n), r.ok)
    return spec
nul = lambda: [bv(c, 8) for c in NULL]
def skip(r):
    rec = r.record(); b, e, IN = r.input()
    W = r.first(IN, K(0), is_ws).pos
    r.call(rec, b, e)
    r.post('always succeeds', r.ok)
    r.post('stops at the first byte that is not white space, or at the end', eq(r.end, W))
# white space and comments: 0 between, 1 after '/', 2 in a block comment, 3 after '*' in one, 4 in a line comment
def cstep(k, c):
    is_ = lambda x: eq(c, bv(ord(x), 8))
    if k == 0: return [(is_ws(c), 0), (is_('/'), 1)]
    if k == 1: return [(is_('*'), 2), (is_('/'), 4)]
    if k == 2: return [(is_('*'), 3), (NOT(is_('*')), 2)]
    if k == 3: return [(is_('/'), 0), (is_('*'), 3), (AND(NOT(is_('/')), NOT(is_('*'))), 2)]
    return [(is_('\n'), 0), (NOT(is_('\n')), 4)]
def skip_comments(r):
    rec = r.record(); b, e, IN = r.input(); N, f = IN.n, IN.fn
    q = r.auto(IN, K(0), 5, cstep, extra=[
        lambda q, i: OR(q.at(0, i), AND(q.at(4, i), eq(f(i), bv(0x0a, 8))), AND(eq(i, N), OR(*[q.at(k, i) for k in (2, 3, 4)]))),
        lambda q, i: OR(q.at(2, i), AND(q.at(3, i), OR(eq(i, N), NOT(eq(f(i), bv(0x2f, 8))))))])
    r.call(rec, b, e)
    E_ = r.end; c = f(E_); q.inst(E_)
    r.post('accepted: stops between tokens at a byte that starts neither, or at the end of the input (in a comment)',
           OR(AND(q.at(0, E_), OR(eq(E_, N), AND(NOT(is_ws(c)), NOT(eq(c, bv(0x2f, 8)))))), AND(eq(E_, N), OR(*[q.at(k, E_) for k in (2, 3, 4)]))), r.ok)
    r.post('rejected: a slash that starts no comment', AND(q.at(1, E_), OR(eq(E_, N), AND(NOT(eq(c, bv(0x2f, 8))), NOT(eq(c, bv(0x2a, 8)))))), NOT(r.ok))
    r.post('end stays inside the input', ule(E_, N))
GEN = {'IN': [b' ', b'\t', b'\n', b'\r', b'\x0b', b'\x0c', b' \n\t\r', b'true', b'false', b'null', b'tru', b't', b'f', b'n', b'fals', b'nul', b'nule', b'truE', b'/', b'*', b'/*', b'*/', b'//', b'/**/', b'\x00', b'\x1f', b'\x85', b'\xa0', b'[']}
TASKS = []
for n, bl in (('bool', True), ('nil', False)):
    for kind, pre, rw in (('read', 'rd_', True), ('read_forward', 'rf_', True), ('read_input', 'ri_', False)):
        TASKS.append(Task('json.lit.%s.%s' % (kind, n), 'json_lit', pre + n, read_lit(bl, rw), ['P'], gen=GEN))
TASKS.append(Task('json.lit.write.bool', 'json_lit', 'wb_bool', write_bool_b, ['P']))
TASKS.append(Task('json.lit.write.nil', 'json_lit', 'wb_nil', write_b('nil', 0, nul), ['P']))
for kind, pre, k in (('write_sink', 'ws_', 'bool'), ('write_push', 'wp_', 'none'), ('write_stream', 'wo_', 'good'), ('write_iter', 'wi_', 'none')):
    TASKS.append(Task('json.lit.%s.bool' % kind, 'json_lit', pre + 'bool', write_bool_s(k), ['P']))
TASKS.append(Task('json.lit.write_sink.nil', 'json_lit', 'ws_nil', write_s(0, nul), ['P']))
TASKS.append(Task('json.lit.write_iter.nil', 'json_lit', 'wi_nil', write_s(0, nul, 'none'), ['P']))
for n in ('sk_json', 'skf_json', 'ski_json'): TASKS.append(Task('json.ws.' + n, 'json_lit', n, skip, ['P'], gen=GEN))
for n in ('sk_cxcf', 'ski_cxcf'): TASKS.append(Task('json.ws.' + n, 'json_lit', n, skip_comments, ['P'], gen=GEN))
