"""A task = one root function of a harness (an instantiation of the real templates of /repo),
its precondition (symbolic arguments), its contract (post obligations) and a native oracle used
only to replay a failed obligation."""
import re, z3, time, os, subprocess, hashlib, json, traceback
from .terms import *
from . import engine as E, llvm

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
UB = '-fsanitize=signed-integer-overflow,integer-divide-by-zero,return,unreachable,shift-exponent -fsanitize-trap=all'
FLAGS = '-O1 -g1 -fno-exceptions -fno-strict-aliasing -Xclang -disable-llvm-passes -Wno-everything'

class I8: k = 'int'; w = 8; size = 1; el = None
class I32: k = 'int'; w = 32; size = 4; el = None
class I64: k = 'int'; w = 64; size = 8; el = None
class I16: k = 'int'; w = 16; size = 2; el = None
class PTR: k = 'ptr'; w = 64; size = 8; el = None
IT = {8: I8, 16: I16, 32: I32, 64: I64}

def compile_bc(harness, outdir, std='c++17', defs=''):
    src = os.path.join(VERIF, 'harness', harness + '.cpp')
    key = hashlib.sha1((harness + std + defs).encode()).hexdigest()[:8]
    out = os.path.join(outdir, '%s-%s.bc' % (harness, key))
    cmd = '%s -std=%s %s %s %s -I%s/src -I%s/harness -c -emit-llvm -o %s %s' % (CXX, std, FLAGS, UB, defs, REPO, VERIF, out, src)
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('harness %s does not compile against the current tree:\n%s' % (harness, p.stderr[-3000:]))
    return out
def compile_so(harness, outdir, std='c++17', defs=''):
    src = os.path.join(VERIF, 'harness', harness + '.cpp')
    key = hashlib.sha1((harness + std + defs).encode()).hexdigest()[:8]
    out = os.path.join(outdir, '%s-%s.so' % (harness, key))
    if os.path.exists(out): return out
    cmd = '%s -std=%s -O1 -g1 -fno-strict-aliasing -Wno-everything %s %s -DGH_NATIVE -I%s/src -I%s/harness -shared -fPIC -o %s %s %s/harness/native.cpp' % (
        CXX, std, UB, defs, REPO, VERIF, out, src, VERIF)
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('native build of %s failed:\n%s' % (harness, p.stderr[-2000:]))
    return out

def load_module(bc, roots, noinline=()):
    m = llvm.Module(bc)
    for r in roots:
        if not m.fref(r): raise RuntimeError('root %s missing' % r)
    m.reached = sorted(n for n in m.reachable(list(roots)) if m.fref(n) and not llvm.IsDecl(m.fref(n)))
    m.opaque_callees = {n: x for n in m.reached for x in noinline if re.search(x, n)}
    rec = m.normalise(list(roots), tuple(m.opaque_callees))
    return m

class Run:
    """symbolic run of one root"""
    concrete = False
    def __init__(self, m, root, callee=None, opts=None):
        """callee: {regular expression over the mangled name: contract(run) -> handler}: calls of a matching
        function are checked against its contract; another contract proves it"""
        self.m, self.root = m, root
        cs = dict(GHOST)
        for n, x in m.opaque_callees.items():
            if callee and x in callee and n != root: cs[n] = callee[x](self)
        self.ex = E.Exec(m, cs, opts)
        self.st = E.State({}, {}, {}, 1)
        self.inputs = {}        # name -> descriptor used to decode a model
        self.ret = None
        self.noreturn = False
    def record(self, name='R', size=16):
        o = self.ex.new_obj(name, size); self.rec = o; return E.ptr(o.id)
    def cell(self, name, size):
        o = self.ex.new_obj(name, size); return E.ptr(o.id), o
    def input(self, name='IN', maxlen=1 << 48, elem=1):
        """immutable input array of symbolic length (in bytes: elem * n)"""
        n = z3.BitVec(name + '.len', 64)
        self.ex.fact(z3.ULE(n, bv(maxlen, 64)))
        o = self.ex.new_input(name, mulc(n, elem) if elem > 1 else n)
        self.inputs[name] = ('bytes', o, n, elem)
        o.n = n
        return E.ptr(o.id), E.Ptr([(T, o.id, o.size)]), o
    def buffer(self, name='OUT', maxlen=1 << 48):
        """writable memory of symbolic length"""
        n = z3.BitVec(name + '.len', 64)
        self.ex.fact(z3.ULE(n, bv(maxlen, 64)))
        o = self.ex.new_obj(name, n)
        a = E.Arr.base(name); self.st.mem[o.id] = ('arr', a); o.init = a
        self.inputs[name] = ('buf', o, n, 1)
        o.n = n
        return E.ptr(o.id), E.Ptr([(T, o.id, n)]), o
    def univ(self, name, w=64, hi=None): return z3.BitVec(name, w)
    def ghost_init(self): ghost_init(self)
    def chain(self, *a, **k): return Chain(self, *a, **k)
    def first(self, IN, start, pred, name='W'): return First(self, IN, start, pred, name)
    def auto(self, *a, **k): return Auto(self, *a, **k)
    def opaque(self, *a, **k): return Opaque(self, *a, **k)
    def value(self, name, w, signed=False):
        v = z3.BitVec(name, w) if w > 1 else z3.Bool(name)
        self.inputs[name] = ('val', v)
        return v
    def assume(self, f): self.ex.fact(f)
    def call(self, *args):
        r = self.ex.call_fn(self.root, list(args), self.st)
        if r is None: self.noreturn = True; return
        self.ret, self.st = r
    def fpconv(self, b, w): return self.ex.fpconv(b, w)
    def itofp(self, v, signed, w): return self.ex.itofp(v, signed, w)
    def get(self, o, off, w):
        self.ex.dry += 1
        v = self.ex.load(self.st, E.ptr(o.id, off), IT[w])
        self.ex.dry -= 1
        return E.pi_bv(v) if isinstance(v, E.PI) else v
    def getptr(self, o, off):
        self.ex.dry += 1; v = self.ex.load(self.st, E.ptr(o.id, off), PTR); self.ex.dry -= 1
        return v
    def byte(self, o, off):
        self.ex.dry += 1; v = self.ex.load(self.st, E.Ptr([(T, o.id, off)]), I8); self.ex.dry -= 1
        return v
    # conventional fields of struct R
    @property
    def end(self): return self.get(self.rec, 0, 64)
    @property
    def ec(self): return self.get(self.rec, 8, 32)
    @property
    def ok(self): return NOT(eq(self.get(self.rec, 12, 32), bv(0, 32)))
    def post(self, name, claim, hyp=None):
        self.ex.cur = None
        self.ex.oblige('post', name, self.st, claim if hyp is None else IMP(hyp, claim), 'contract of ' + self.root)

# --- ghost output -----------------------------------------------------------------------------
def ghost_init(run, J='J'):
    g = run.st.gh
    run.J = z3.BitVec(J, 64)
    g['olen'] = bv(0, 64); g['oJ'] = bv(0, 8); g['ofail'] = F
def gh_push(ex, st, a, I, name):
    st = st.copy(); c = E.pi_bv(a[0])
    if c.size() > 8: c = trunc(c, 8)
    ok = fresh('sink_ok', 0); g = st.gh; J = z3.BitVec('J', 64)
    hit = AND(ok, NOT(g['ofail']), eq(g['olen'], J))
    g['oJ'] = ite(hit, c, g['oJ'])
    g['olen'] = ite(ok, add(g['olen'], bv(1, 64)), g['olen'])
    g['ofail'] = OR(g['ofail'], NOT(ok))
    for h in ex.opts.get('on_out', ()): h(ex, st, ok, bv(1, 64))
    return ok, st
def gh_append(ex, st, a, I, name):
    from . import intrinsics as IN
    st = st.copy(); f, l = a[0], a[1]
    n = ex.pdiff(f, l); n = sub(bv(0, 64), n)
    n = ex.pdiff(l, f)
    # precondition: [f,l) is a valid readable range of one object
    IN.range_ok(ex, st, f, n, 'append to the output sink')
    ok = fresh('sink_ok', 0); g = st.gh; J = z3.BitVec('J', 64)
    rel = sub(J, g['olen'])
    hit = AND(ok, NOT(g['ofail']), ule(g['olen'], J), ult(rel, n))
    ex.dry += 1
    b = IN.byte_reader(ex, st, f, n)(rel)
    ex.dry -= 1
    if b is not None: g['oJ'] = ite(hit, b, g['oJ'])
    g['olen'] = ite(ok, add(g['olen'], n), g['olen'])
    g['ofail'] = OR(g['ofail'], NOT(ok))
    return ok, st
def gh_fill(ex, st, a, I, name):
    st = st.copy(); n, c = E.pi_bv(a[0]), E.pi_bv(a[1])
    n = zext(n, 64) if n.size() < 64 else n
    c = trunc(c, 8) if c.size() > 8 else c
    ok = fresh('sink_ok', 0); g = st.gh; J = z3.BitVec('J', 64)
    hit = AND(ok, NOT(g['ofail']), ule(g['olen'], J), ult(sub(J, g['olen']), n))
    g['oJ'] = ite(hit, c, g['oJ'])
    g['olen'] = ite(ok, add(g['olen'], n), g['olen'])
    g['ofail'] = OR(g['ofail'], NOT(ok))
    return ok, st
GHOST = {'gh_push': gh_push, 'gh_append': gh_append, 'gh_fill': gh_fill}

class Chain:
    """ghost decoding of the input as a chain of tokens. tok(in, N, i) -> (valid, length, [output
    bytes] or a function of the index, output length). at(i): i is a token boundary reached from `start`; dl(i): number of
    output bytes of the tokens before i; eo(j): output byte j, kept for j = J only (J is the universal index of the ghost output). The functions are the least
    ones closed under the step below; the step is instantiated where the verifier needs it."""
    def __init__(self, run, IN, start, tok, name='c', w=8, pre=(), grow=1, total=False):
        self.run, self.IN, self.N, self.start, self.tok, self.total = run, IN, IN.n, start, tok, total
        self.pre, self.grow = bv(len(pre), 64), grow
        B = z3.BitVecSort(64)
        self._at = z3.Function(name + '_at', B, z3.BoolSort()); self._dl = z3.Function(name + '_dl', B, B); self._eoJ = z3.BitVec(name + '_eo', w)
        self.memo = {}; self.keep = []; self.w = w
        run.ex.fact(self.at(start)); run.ex.fact(eq(self._dl(start), self.pre))
        for k, b in enumerate(pre): run.ex.fact(IMP(eq(z3.BitVec('J', 64), bv(k, 64)), eq(self._eoJ, b)))
        self.inst(start)
        run.ex.cand_providers.append(self.cands)
    def at(self, x):
        # total: every element is one valid byte, so every position is a boundary
        return AND(ule(self.start, x), ule(x, self.N)) if self.total else self._at(x)
    def dl(self, x): return self._dl(x)
    def eo(self, j): assert j.eq(z3.BitVec('J', 64)); return self._eoJ
    def inst(self, x):
        i = x.get_id()
        if i not in self.memo:
            self.memo[i] = []; self.keep.append(x); self._inst(x, self.memo[i].append)
        for f in self.memo[i]: self.run.ex.fact(f)
    def _inst(self, x, fact):
        f = self.IN.fn
        v, n, out, on = self.tok(f, self.N, x)
        h = AND(self.at(x), ult(x, self.N), v); y = add(x, n); d = self._dl(x)
        # least-model consequences (induction over the chain; each step keeps them, see tok_lemma)
        fact(IMP(self.at(x), AND(ule(self.start, x), ule(x, self.N), ule(self.pre, d), ule(d, add(self.pre, mulc(sub(x, self.start), self.grow))))))
        fact(IMP(h, AND(self.at(y), eq(self._dl(y), add(d, on)))))
        J = z3.BitVec('J', 64); rel = sub(J, d)
        if callable(out): b = out(rel)
        else:
            b = out[0]
            for k, o in enumerate(out[1:], 1): b = ite(eq(rel, bv(k, 64)), o, b)
        fact(IMP(AND(h, ule(d, J), ult(rel, on)), eq(self._eoJ, b)))
    def tok_lemma(self):
        x = fresh('tl'); v, n, out, on = self.tok(self.IN.fn, self.N, x)
        self.run.post('lemma: a token stays inside the input and is not shorter than its output', AND(ule(n, sub(self.N, x)), ule(on, mulc(n, self.grow)), NOT(eq(n, bv(0, 64)))), AND(v, ult(x, self.N)))
    def cands(self, ex, cx):
        oid = self.IN.id; out = []
        ps = [(('%s' % (k,)), cx.pos(k, oid)) for k in cx.ptr_keys(oid)]
        for k in cx.ptr_keys(oid):
            for b in cx.int_keys():
                w = cx.head[b].size()
                if w in (32, 64) and b[0] == 'r': ps.append(('%s+%s' % (k, b), lambda v, k=k, b=b, w=w: add(cx.pos(k, oid)(v), sext(v[b], 64) if w < 64 else v[b])))
        if ex.opts.get('sums'): ps = [(n, p) for n, p in ps if '+' not in n] + cx.sums(oid)
        for n, p in ps:
            self.inst(p(cx.head))
            if not self.total: out.append(('at ' + n, lambda v, p=p: self._at(p(v))))
            out.append(('olen=dl ' + n, lambda v, p=p: eq(self.olen(v, cx), self._dl(p(v)))))
        cs = [('c%d' % i, (lambda v, c=c: c)) for i, c in enumerate(cx.consts['ptrs'].get(oid, []))]
        J = z3.BitVec('J', 64)
        for n, p in ps:
            for m, q in ps + cs:
                if n == m: continue
                seg = lambda v, p=p, q=q: AND(ule(q(v), p(v)), eq(sub(self._dl(p(v)), self._dl(q(v))), sub(p(v), q(v))))
                out.append(('seg %s..%s' % (m, n), seg))
                out.append(('segb %s..%s' % (m, n), lambda v, p=p, q=q: IMP(AND(ule(self._dl(q(v)), J), ult(J, self._dl(p(v)))), eq(self._eoJ, self.elem(add(q(v), sub(J, self._dl(q(v)))))))))
        out.append(('out', lambda v: IMP(ult(J, self.olen(v, cx)), eq(self.gv(v, cx, 'oJ'), self._eoJ))))
        out.append(('nofail', lambda v: NOT(self.gv(v, cx, 'ofail'))))
        return out
    def elem(self, x): return self.IN.fn(x)
    def gv(self, v, cx, name):
        k = ('g', name)
        return v[k] if k in v else cx.st.gh[name]
    def olen(self, v, cx): return self.gv(v, cx, 'olen')
class CChain:
    """Chain on constants"""
    def __init__(self, run, IN, start, tok, name='c', w=8, pre=(), grow=1, total=False):
        from .concrete import con
        self.w = w; N = con(IN.n); i = con(start); self.m = {}; out = [con(b) for b in pre]
        while True:
            self.m[i] = len(out)
            if i >= N: break
            v, n, o, on = tok(IN.fn, IN.n, bv(i, 64))
            if not z3.is_true(z3.simplify(v)): break
            out += [con(o(bv(k, 64))) for k in range(con(on))] if callable(o) else [con(x) for x in o[:con(on)]]; i += con(n)
        self.out = out
    def at(self, x):
        from .concrete import con
        return z3.BoolVal(con(x) in self.m)
    def dl(self, x):
        from .concrete import con
        return bv(self.m.get(con(x), (1 << 64) - 1), 64)
    def eo(self, j):
        from .concrete import con
        j = con(j); return bv(self.out[j] if j < len(self.out) else 0, self.w)
    def tok_lemma(self): pass
    def inst(self, x): pass

class First:
    """pos: the first index >= start whose element does not satisfy pred (or the length)"""
    def __init__(self, run, IN, start, pred, name='W'):
        self.run, self.IN, self.start, self.pred = run, IN, start, pred
        self.pos = z3.BitVec(name, 64); self.keep = []
        ex = run.ex; N = IN.n
        ex.fact(IMP(ule(start, N), AND(ule(start, self.pos), ule(self.pos, N), OR(eq(self.pos, N), NOT(pred(IN.fn(self.pos)))))))
        self.inst(start); ex.cand_providers.append(self.cands)
    def inst(self, x):
        self.keep.append(x)
        self.run.ex.fact(IMP(AND(ule(self.start, x), ult(x, self.pos)), self.pred(self.IN.fn(x))))
    def cands(self, ex, cx):
        out = []
        for k in cx.ptr_keys(self.IN.id):
            P = cx.pos(k, self.IN.id)
            self.inst(P(cx.head))
            out.append(('%s<=W' % (k,), lambda v, P=P: ule(P(v), self.pos)))
            out.append(('%s=W' % (k,), lambda v, P=P: eq(P(v), self.pos)))
        return out
class Opaque:
    """specification function of a position kept abstract: at(p) gives its values as uninterpreted
    functions with the facts lemma(p, values) (proved separately); reveal(p) asserts the definition"""
    def __init__(self, run, name, widths, defn, lemma=lambda p, v: []):
        self.run, self.defn, self.lemma = run, defn, lemma; self.keep = []; self.name = name
        self.f = [z3.Function('%s.%d' % (name, k), z3.BitVecSort(64), z3.BitVecSort(w) if w else z3.BoolSort()) for k, w in enumerate(widths)]
    def at(self, p):
        self.keep.append(p); v = [f(p) for f in self.f]
        for x in self.lemma(p, v): self.run.ex.fact(x)
        return v
    def reveal(self, p):
        v = self.at(p); d = self.defn(p); self.keep.append(d)
        for a, b in zip(v, d): self.run.ex.fact(a == b)
        return v
class COpaque:
    def __init__(self, run, name, widths, defn, lemma=None): self.at = self.reveal = defn
def position(run, st, p, IN, what):
    """offset of pointer p, which must point into [begin, end] of IN (an obligation)"""
    ex = run.ex; pos = None; ok = F
    for c, o, f in p.alts:
        if o == IN.id: ok = OR(ok, AND(c, ule(f, IN.sz()))); pos = f if pos is None else ite(c, f, pos)
    ex.oblige('callee', what, st, ok)
    return pos if pos is not None else bv(0, 64)
class Auto:
    """ghost run of a deterministic automaton over the input from `start` in state 0:
    step(state, byte) -> [(condition, next state)]; at(k, i): the run is in state k before byte i"""
    def __init__(self, run, IN, start, n, step, name='q', extra=()):
        self.run, self.IN, self.start, self.n, self.step, self.extra = run, IN, start, n, step, extra
        self.f = [z3.Function('%s_%d' % (name, k), z3.BitVecSort(64), z3.BoolSort()) for k in range(n)]
        self.keep = []
        run.ex.fact(self.f[0](start)); self.inst(start)
        run.ex.cand_providers.append(self.cands)
    def at(self, k, i): return self.f[k](i)
    def excl(self, x):
        for a in range(self.n):
            for b in range(a): self.run.ex.fact(NOT(AND(self.f[a](x), self.f[b](x))))
    def inst(self, x):
        self.keep.append(x)
        ex = self.run.ex; y = add(x, bv(1, 64)); c = self.IN.fn(x)
        self.excl(x); self.excl(y)
        for k in range(self.n):
            ex.fact(IMP(self.f[k](x), AND(ule(self.start, x), ule(x, self.IN.n))))
            for cond, k2 in self.step(k, c): ex.fact(IMP(AND(self.f[k](x), ult(x, self.IN.n), cond), self.f[k2](y)))
    def cands(self, ex, cx):
        out = []
        for k in cx.ptr_keys(self.IN.id):
            P = cx.pos(k, self.IN.id)
            x = P(cx.head); self.inst(x)
            for d in (1, 2): self.inst(add(x, bv(d, 64)))
            for s in range(self.n):
                out.append(('q%d %s' % (s, k), lambda v, P=P, s=s: self.f[s](P(v))))
                out.append(('q%d %s+1' % (s, k), lambda v, P=P, s=s: self.f[s](add(P(v), bv(1, 64)))))
            for i, g in enumerate(self.extra): out.append(('x%d %s' % (i, k), lambda v, P=P, g=g: g(self, P(v))))
        return out
class CFirst:
    def __init__(self, run, IN, start, pred, name='W'):
        from .concrete import con
        i, N = con(start), con(IN.n)
        while i < N and z3.is_true(z3.simplify(pred(IN.fn(bv(i, 64))))): i += 1
        self.pos = bv(i, 64)
    def inst(self, x): pass
class CAuto:
    def __init__(self, run, IN, start, n, step, name='q', extra=()):
        from .concrete import con
        i, N, k = con(start), con(IN.n), 0; self.m = {i: 0}
        while i < N:
            for cond, k2 in step(k, IN.fn(bv(i, 64))):
                if z3.is_true(z3.simplify(cond)): k = k2; break
            else: break
            i += 1; self.m[i] = k
    def at(self, k, x):
        from .concrete import con
        return z3.BoolVal(self.m.get(con(x), -1) == k)
    def inst(self, x): pass

class Task:
    def __init__(self, name, harness, root, spec, props, replay=None, opts=None, callee=None, bounded=None, std='c++17', defs='', weight=1, desc='', gen=None, native=0):
        self.native = native
        self.__dict__.update(locals()); del self.__dict__['self']; self.noinline = tuple(sorted(callee or ()))

def discharge(ex, ob, cvc5_fallback=True):
    """'proved' | 'failed' (+model) | 'unknown'"""
    fs = ex.facts[:ob.nfacts] + [ob.guard, NOT(ob.claim)]
    from . import split
    split.DEADLINE[0] = time.time() + 150
    r, s = ex.check(fs, ex.opts.get('whole', 40000)); m = None
    if r == z3.unsat: return 'proved', None, 'z3'
    if r == z3.sat: return 'failed', s.model(), 'z3'
    r, m = split.refute_paths(ex, fs, ex.opts.get('pquick', 600), ex.opts.get('timeout', 20000), split.Budget(ex.opts.get('paths', 600), ex.opts.get('psecs', 30)))
    if r == 'unknown':
        r, s = ex.check(fs, ex.opts.get('whole2', 120000))
        r, m = ('unsat', None) if r == z3.unsat else ('sat', s.model()) if r == z3.sat else ('unknown', None)
    split.DEADLINE[0] = time.time() + ex.opts.get('split_s', 90)
    if r == 'unknown': r, m = split.refute(ex, fs, ex.opts.get('quick', 2500), ex.opts.get('timeout', 20000))
    if r == 'unsat': return 'proved', None, 'z3'
    if r == 'sat': return 'failed', m, 'z3'
    if cvc5_fallback:
        t = time.time()
        r = run_cvc5(fs, ex.opts.get('cvc5_timeout', 60))
        ex.solver_time += time.time() - t
        if r == 'unsat': return 'proved', None, 'cvc5'
        if r == 'sat': return 'failed', None, 'cvc5'
    return 'unknown', None, 'z3+cvc5'
def run_cvc5(fs, tmo):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (tmo * 1000), '-'], input=txt, capture_output=True, text=True, timeout=tmo + 20)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception: return 'unknown'

def decode(run, m):
    """concrete arguments of a model (inputs longer than 4096 bytes are cut)"""
    out = {}
    if m is None: return None
    for n, d in run.inputs.items():
        if d[0] == 'val':
            v = m.eval(d[1], model_completion=True)
            out[n] = bool(z3.is_true(v)) if z3.is_bool(v) else v.as_long()
        elif d[0] in ('bytes', 'buf'):
            ln = m.eval(d[2], model_completion=True).as_long()
            out[n + '.len'] = ln
            k = min(ln, 4096) * d[3]
            if d[0] == 'bytes':
                f = d[1].fn; bs = []
                for i in range(k): bs.append(m.eval(f(bv(i, 64)), model_completion=True).as_long())
                out[n] = bytes(bs).hex()
    return out

def execute(task, m):
    """run one task: returns result dictionary"""
    t0 = time.time()
    res = {'task': task.name, 'root': task.root, 'obligations': [], 'failed': [], 'error': None, 'loops': [], 'notes': []}
    run = None
    try:
        opts = dict(task.opts or {})
        if os.environ.get('VCLOG'):
            import faulthandler, signal; faulthandler.register(signal.SIGUSR1, file=open(os.path.join(os.environ['VCLOG'], task.name + '.bt'), 'w'))
            lf = open(os.path.join(os.environ['VCLOG'], task.name), 'w'); opts['log'] = lambda *a: print(round(time.time() - t0, 1), *a, file=lf, flush=True); opts['hverbose'] = True
        run = Run(m, task.root, task.callee, opts)
        task.spec(run)
        ex = run.ex
        n_ok = 0; backends = {}
        # vacuity: the assumptions must be satisfiable and the root must be able to return
        r, _ = ex.check(list(ex.facts) + [ex.bdd.z(run.st.g)], 60000)
        res['vacuity'] = str(r)
        if r == z3.unsat and not opts.get('allow_noreturn'): res['error'] = 'vacuous: assumptions unsatisfiable at return'
        seen = {}; obs = []
        for ob in ex.obl:
            k = (ob.guard.get_id(), ob.claim.get_id(), ob.nfacts)
            if k not in seen: seen[k] = 1; obs.append(ob)
        def some(js):
            out = []; bad = 0; q0 = ex.stats['queries']; t0 = ex.solver_time
            for j in js:
                t1 = time.time(); st, mod, be = discharge(ex, obs[j])
                if time.time() - t1 > 2: ex.log('obligation', obs[j].kind, obs[j].name, obs[j].where, st, be, round(time.time() - t1, 1))
                out.append([j, st, be, decode(run, mod) if mod is not None else None])
                if st != 'proved':
                    bad += 1
                    if bad >= opts.get('max_fail', 3): break
            return [out, ex.stats['queries'] - q0, ex.solver_time - t0]
        from . import par
        k = max(1, min(8, len(obs) // 4)) if par.TOKENS else 1
        outs = par.pmap(some, [list(range(len(obs)))[j::k] for j in range(k)])
        if None in outs: res['error'] = 'a discharging process died'
        for o in outs:
            if o and k > 1: ex.stats['queries'] += o[1]; ex.solver_time += o[2]
        for j, st, be, mod in sorted((x for o in outs if o for x in o[0]), key=lambda x: x[0]):
            ob = obs[j]; backends[be] = backends.get(be, 0) + 1
            res['obligations'].append([ob.kind, ob.name, ob.where, st, be])
            if st != 'proved': res['failed'].append({'kind': ob.kind, 'name': ob.name, 'where': ob.where, 'status': st, 'model': mod})
        res['failed'] = res['failed'][:opts.get('max_fail', 3)]
        res['trivial'] = ex.stats.get('trivial', 0)
        res['inv_obl'] = ex.stats.get('inv_obl', 0)
        res['loops'] = ex.loops_done
        res['fns'] = list(m.reached)
        res['backends'] = backends
        res['solver_s'] = round(ex.solver_time, 3)
        res['queries'] = ex.stats['queries']
    except E.Unsupported as e:
        res['error'] = 'unsupported: %s' % e
        if run is not None and run.ex.cur is not None: res['error'] += ' at ' + run.ex.where()
        if os.environ.get('VCDEBUG'): traceback.print_exc()
    except Exception as e:
        res['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        if os.environ.get('VCDEBUG'): traceback.print_exc()
        else: res['trace'] = traceback.format_exc()[-1500:]
    res['wall_s'] = round(time.time() - t0, 3)
    return res
