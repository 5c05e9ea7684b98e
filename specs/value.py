"""JSON values as byte runs (RFC 8259): skipping one value; the skeleton of lists and objects."""
import z3
from vcgen.terms import *
from vcgen.task import *
from .json_tok import is_ws
K = lambda k: bv(k, 64)
ch = lambda c, s: OR(*[eq(c, bv(ord(x), 8)) for x in s])
DELIM = '}],'
class Scan:
    """ghost run over the input from `start`: state k and a counter before each byte; step(k, d, byte) -> [(condition, k', d')]"""
    def __init__(self, run, IN, start, init, n, step, name='q', extra=()):
        self.run, self.IN, self.start, self.n, self.step, self.extra = run, IN, start, n, step, extra
        B = z3.BitVecSort(64)
        self.f = [z3.Function('%s_%d' % (name, k), B, z3.BoolSort()) for k in range(n)]; self._d = z3.Function(name + '_d', B, B)
        self.memo = set(); self.keep = []
        for k, c in init: run.ex.fact(IMP(c, AND(self.f[k](start), eq(self._d(start), K(0)))))
        self.inst(start); run.ex.cand_providers.append(self.cands)
    def at(self, k, i): return self.f[k](i)
    def d(self, i): return self._d(i)
    def inst(self, x):
        ex = self.run.ex; y = add(x, K(1)); c = self.IN.fn(x); N = self.IN.n
        if x.get_id() in self.memo: pass
        self.memo.add(x.get_id()); self.keep.append(x)
        for z in (x, y):
            for a in range(self.n):
                for b in range(a): ex.fact(NOT(AND(self.f[a](z), self.f[b](z))))
        for k in range(self.n):
            ex.fact(IMP(self.f[k](x), AND(ule(self.start, x), ule(x, N), ule(self._d(x), sub(x, self.start)))))
            for cond, k2, d2 in self.step(k, self._d(x), c): ex.fact(IMP(AND(self.f[k](x), ult(x, N), cond), AND(self.f[k2](y), eq(self._d(y), d2))))
    def cands(self, ex, cx):
        out = []
        for k in cx.ptr_keys(self.IN.id):
            P = cx.pos(k, self.IN.id); x = P(cx.head); self.inst(x)
            for j in (1, 2): self.inst(add(x, K(j)))
            for s in range(self.n):
                out.append(('q%d %s' % (s, k), lambda v, P=P, s=s: self.f[s](P(v))))
                out.append(('q%d %s+1' % (s, k), lambda v, P=P, s=s: self.f[s](add(P(v), K(1)))))
            for i, g in enumerate(self.extra): out.append(('x%d %s' % (i, k), lambda v, P=P, g=g: g(self, P(v))))
            x0 = P(cx.entry) if cx.entry.get(k) is not None else None
            if x0 is not None: out.append(('d=d0 %s+1' % (k,), lambda v, P=P, x0=x0: eq(self._d(add(P(v), K(1))), self._d(add(x0, K(1))))))
            if x0 is not None: out.append(('d=d0 %s' % (k,), lambda v, P=P, x0=x0: eq(self._d(P(v)), self._d(x0))))
            for k2 in cx.keys:
                w = cx.head.get(k2)
                if not (z3.is_bv(w) and w.size() in (32, 64)): continue
                e = (lambda t: zext(t, 64) if t.size() < 64 else t)
                out.append(('%s=d %s' % (k2, k), lambda v, P=P, k2=k2, e=e: eq(e(v[k2]), self._d(P(v)))))
                out.append(('%s=d %s+1' % (k2, k), lambda v, P=P, k2=k2, e=e: eq(e(v[k2]), self._d(add(P(v), K(1))))))
            if ('g', 'olen') in cx.keys:
                out.append(('olen=d %s' % (k,), lambda v, P=P: eq(v[('g', 'olen')], self._d(P(v)))))
        return out
class CScan:
    def __init__(self, run, IN, start, init, n, step, name='q', extra=()):
        from vcgen.concrete import con
        i, N = con(start), con(IN.n); k = next((k for k, c in init if z3.is_true(z3.simplify(c))), None); d = 0; self.m = {}
        if k is None or i > N: return
        self.m[i] = (k, 0)
        while i < N:
            for cond, k2, d2 in step(k, K(d), IN.fn(bv(i, 64))):
                if z3.is_true(z3.simplify(cond)): k = k2; d = con(d2); break
            else: break
            i += 1; self.m[i] = (k, d)
    def at(self, k, x):
        from vcgen.concrete import con
        return z3.BoolVal(self.m.get(con(x), (-1, 0))[0] == k)
    def d(self, x):
        from vcgen.concrete import con
        return K(self.m.get(con(x), (0, 0))[1])
    def inst(self, x): pass
def scan(r, *a, **k):
    from vcgen.concrete import Conc
    return (CScan if isinstance(r, Conc) else Scan)(r, *a, **k)

def provide(r, fn):
    from vcgen.concrete import Conc
    if not isinstance(r, Conc): r.ex.cand_providers.append(fn)
def claim_out(r, f):
    """candidate: what has been written so far satisfies f(byte)"""
    provide(r, lambda ex, cx: [('written', lambda v: IMP(ult(r.J, v[('g', 'olen')]), f(v[('g', 'oJ')])))] if ('g', 'oJ') in cx.keys else [])

# inside a value, after its first byte: 0 between, 1 in a string, 2 after a backslash, 3 behind the value
def skip(keep=False, rewinds=True):
    def spec(r):
        if keep: r.ghost_init()
        rec = r.record(); b, e, IN = r.input(); N, f = IN.n, IN.fn
        r.assume(ult(N, K(1 << 32)))
        W = r.first(IN, K(0), is_ws, 'W').pos; c0 = f(W); some = ult(W, N)
        br = [AND(some, ch(c0, o)) for o in '{[']; st = AND(some, ch(c0, '"')); cont = OR(*br)
        op, cl = lambda c: OR(*[AND(br[k], ch(c, '{['[k])) for k in (0, 1)]), lambda c: OR(*[AND(br[k], ch(c, '}]'[k])) for k in (0, 1)])
        def step(k, d, c):
            if k == 0: return [(op(c), 0, add(d, K(1))), (AND(cl(c), eq(d, K(0))), 3, d), (AND(cl(c), NOT(eq(d, K(0)))), 0, sub(d, K(1))), (ch(c, '"'), 1, d),
                               (AND(NOT(op(c)), NOT(cl(c)), NOT(ch(c, '"'))), 0, d)]
            if k == 1: return [(ch(c, '\\'), 2, d), (AND(ch(c, '"'), cont), 0, d), (AND(ch(c, '"'), NOT(cont)), 3, d), (AND(NOT(ch(c, '\\')), NOT(ch(c, '"'))), 1, d)]
            if k == 2: return [(T, 1, d)]
            return []
        q = scan(r, IN, add(W, K(1)), [(0, cont), (1, st)], 4, step)
        S_ = r.first(IN, W, lambda c: NOT(ch(c, DELIM)), 'S'); S = S_.pos; S_.inst(W)
        scl = AND(some, NOT(cont), NOT(st))
        if keep: claim_out(r, lambda o: eq(o, f(add(W, r.J))))
        r.call(rec, b, e); E_ = r.end; q.inst(E_)
        if keep:
            g = r.st.gh; full = NOT(g['ofail'])
            r.post('what is kept is the text of the value', eq(g['oJ'], f(add(W, r.J))), AND(r.ok, ult(r.J, g['olen'])))
            r.post('all of it', eq(g['olen'], sub(E_, W)), r.ok)
            r.post('a refused byte is an error', full, r.ok)
        else: full = T
        r.post('accepted: a bracketed value or string ends right behind its own end', q.at(3, E_), AND(r.ok, OR(cont, st)))
        r.post('accepted: a scalar ends at the first delimiter, and is not empty', AND(eq(E_, S), ult(S, N), ult(W, S)), AND(r.ok, scl))
        r.post('accepted: there is a value', some, r.ok)
        if rewinds:
            pass
        bad = AND(NOT(r.ok), full)
        r.post('rejected: the input ends before the value does, or there is no value',
               OR(NOT(some), AND(some, scl, OR(eq(S, N), eq(S, W))), AND(OR(cont, st), OR(*[q.at(k, N) for k in (0, 1, 2)]))), bad)
        r.post('end stays inside the input', ule(E_, N))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
    return spec
# list skeleton: 0 before the bracket, 1 behind it, 2 behind an element, 3 behind a separator, 4 behind the list
def lst(o, c_, ts=False, rewinds=True):
    def step(k, d, c):
        ws, dg = is_ws(c), AND(ule(bv(0x30, 8), c), ule(c, bv(0x39, 8)))
        if k == 0: return [(ws, 0, d), (ch(c, o), 1, d)]
        if k == 1: return [(ws, 1, d), (ch(c, c_), 4, d), (dg, 2, add(d, K(1)))]
        if k == 2: return [(ws, 2, d), (ch(c, ','), 3, d), (ch(c, c_), 4, d)]
        if k == 3: return [(ws, 3, d), (dg, 2, add(d, K(1)))] + ([(ch(c, c_), 4, d)] if ts else [])
        return []
    def stuck(q, i, N, f):
        c = f(i); ws, dg = is_ws(c), AND(ule(bv(0x30, 8), c), ule(c, bv(0x39, 8)))
        return OR(*[AND(q.at(k, i), OR(eq(i, N), NOT(OR(*[x for x, _, _ in step(k, K(0), c)])))) for k in range(4)])
    def spec(r):
        r.ghost_init(); rec = r.record(); b, e, IN = r.input(); N, f = IN.n, IN.fn
        here = lambda i: OR(eq(i, N), AND(NOT(is_ws(f(i))), NOT(ch(f(i), c_))))
        q = scan(r, IN, K(0), [(0, T)], 5, step, extra=[lambda q, i: OR(q.at(3, i), AND(q.at(1, i), here(i))), lambda q, i: AND(OR(q.at(1, i), q.at(3, i)), here(i))])
        J = r.J
        r.call(rec, b, e); E_ = r.end; q.inst(E_); g = r.st.gh; full = NOT(g['ofail'])
        r.post('accepted: bracket, elements with single separators between them, bracket', q.at(4, E_), r.ok)
        r.post('every element is read once', eq(g['olen'], q.d(E_)), r.ok)
        r.post('a refused element is an error', full, r.ok)
        r.post('rejected at the first byte that cannot continue the list', stuck(q, E_, N, f), AND(NOT(r.ok), full))
        r.post('end stays inside the input', ule(E_, N))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
    return spec
def wlst(o_, c_):
    def spec(r):
        r.ghost_init(); rec = r.record(); b, e, IN = r.input(); N, f = IN.n, IN.fn; J = r.J
        od = eq(z3.Extract(0, 0, J), bv(1, 1))
        claim_out(r, lambda o: eq(o, ite(eq(J, K(0)), bv(ord(o_), 8), ite(od, f(z3.LShR(sub(J, K(1)), K(1))), bv(0x2c, 8)))))
        def cands(ex, cx):
            return [('olen=2p+%d %s' % (k, q), lambda v, P=cx.pos(q, IN.id), k=k: eq(v[('g', 'olen')], add(mulc(P(v), 2), K(k)))) for q in cx.ptr_keys(IN.id) for k in range(4)] if ('g', 'olen') in cx.keys else []
        provide(r, cands)
        r.call(rec, b, e); g = r.st.gh; L = ite(eq(N, K(0)), K(2), add(mulc(N, 2), K(1)))
        r.post('fails exactly when the output refuses a byte', r.ok == NOT(g['ofail']))
        r.post('the length is that of the brackets, the elements and one separator between neighbours', eq(g['olen'], L), r.ok)
        k = lambda p: AND(r.ok, p)
        r.post('opening bracket', eq(g['oJ'], bv(ord(o_), 8)), k(eq(J, K(0))))
        r.post('closing bracket', eq(g['oJ'], bv(ord(c_), 8)), k(eq(J, sub(L, K(1)))))
        odd = eq(z3.Extract(0, 0, J), bv(1, 1))
        inside = AND(ult(K(0), J), ult(J, sub(L, K(1))))
        r.post('every element in order', eq(g['oJ'], f(z3.LShR(sub(J, K(1)), K(1)))), k(AND(inside, odd)))
        r.post('a separator between neighbours', eq(g['oJ'], bv(0x2c, 8)), k(AND(inside, NOT(odd))))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
    return spec
VGEN = {'IN': [b'{', b'}', b'[', b']', b'"', b'\\', b',', b':', b' ', b'\n', b'1', b'null', b'"a"', b'"\\""', b'{"a":[1]}', b'[]', b'{}', b',2', b' , 3', b'[1,2]', b'[1', b'[' * 256, b']' * 256, b'}' * 256, b'{' * 256]}
TASKS = [Task('json.skip.' + n, 'value', 'vs_' + n, skip(n == 'keep', n != 'skip_inp'), ['P'], gen=VGEN) for n in ('skip', 'skip_inp', 'keep')]
TASKS += [Task('json.list.read', 'value', 'rl_list', lst('[', ']'), ['P'], gen=VGEN, weight=3),
          Task('json.list.read_map_trailing', 'value', 'rl_map_ts', lst('{', '}', True), ['P'], gen=VGEN, weight=3),
          Task('json.list.read_map', 'value', 'rl_map', lst('{', '}'), ['P'], gen=VGEN, weight=3),
          Task('json.list.write', 'value', 'wl_list', wlst('[', ']'), ['P']), Task('json.list.write_map', 'value', 'wl_map', wlst('{', '}'), ['P'])]
