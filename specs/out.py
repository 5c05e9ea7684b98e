"""Output adapters: the bounded range container and the buffering output iterator."""
import z3
from vcgen.terms import *
from vcgen.task import *
K = lambda k: bv(k, 64)
def cat(parts, j):
    """byte j of the concatenation of [(length, function of the index)]"""
    off = K(0); v = bv(0, 8); tot = K(0)
    conds = []
    for n, f in parts: conds.append((off, n, f)); off = add(off, n)
    for o, n, f in reversed(conds): v = ite(AND(ule(o, j), ult(sub(j, o), n)), f(sub(j, o)), v)
    return v, off
def rc(kind):
    def spec(r):
        rec = r.record(); f1, l1, A = r.input('IN'); f2, l2, B = r.input('IN2'); c = r.value('c', 8); n = r.value('n', 32); b, e, o = r.buffer()
        r.call(rec, f1, l1, f2, l2, c, n, b, e)
        first = ule(A.n, o.n)
        m, g = {'range': (B.n, B.fn), 'count': (B.n, B.fn), 'one': (K(1), lambda i: c), 'fill': (zext(n, 64), lambda i: c)}[kind]
        parts = [(A.n, A.fn), (m, g)]; fits = ule(add(A.n, m), o.n)
        r.post('an append succeeds exactly when it fits', r.ok == fits)
        r.post('the end counts exactly the bytes of the successful appends', eq(r.end, ite(fits, add(A.n, m), ite(first, A.n, K(0)))))
        j = r.univ('j'); v, tot = cat(parts, j)
        r.post('the bytes are those appended, in order', eq(r.byte(o, j), v), AND(ult(j, r.end)))
        r.post('nothing is written past the reported end', eq(r.byte(o, j), o.init.read(j)), AND(ule(r.end, j), ult(j, o.n)))
        r.post('the end stays inside the output', ule(r.end, o.n))
    return spec
def bb(kind):
    def spec(r):
        r.ghost_init(); rec = r.record(); b, e, o = r.buffer(); f1, l1, A = r.input('IN'); f2, l2, B = r.input('IN2'); c = r.value('c', 8); n = r.value('n', 32)
        r.assume(NOT(eq(o.n, K(0))))
        r.call(rec, b, e, f1, l1, f2, l2, c, n); g = r.st.gh
        one, rng, fil = (K(1), lambda i: c), (B.n, B.fn), (zext(n, 64), lambda i: c)
        parts = [(A.n, A.fn)] + {'one': [one], 'assign': [one], 'range': [rng], 'count': [rng], 'flush': [rng], 'fill': [fil], 'one_range': [one, rng], 'range_one': [rng, one], 'poke': [one, rng], 'copy': [rng], 'postfix': [one, (K(1), lambda i: trunc(n, 8))], 'by_value': [rng, one]}[kind]
        v, tot = cat(parts, r.J)
        r.post('everything appended is delivered, once', eq(g['olen'], tot), NOT(g['ofail']))
        r.post('in order', eq(g['oJ'], v), AND(NOT(g['ofail']), ult(r.J, tot)))
    return spec
TASKS = [Task('out.range.' + k, 'out', 'rc_' + k, rc(k), ['P']) for k in ('range', 'count', 'one', 'fill')] + \
        [Task('out.buffered.' + k, 'out', 'bb_' + k, bb(k), ['P']) for k in ('one', 'assign', 'range', 'count', 'fill', 'flush', 'one_range', 'range_one', 'poke', 'copy', 'postfix', 'by_value')]
