"""VC generator: symbolic execution of normalised LLVM IR with merged paths, object-based
memory, loop cut-points with inferred inductive invariants, and callee contracts.

Every proof obligation is (facts, guard) ==> claim over bit-vectors, uninterpreted functions
and arrays; the solver has to refute its negation."""
import z3, time, sys, subprocess, tempfile
from .terms import *
from .bdd import BDD
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
def portfolio(fs, tmo):
    """solving times vary by orders of magnitude between solvers and configurations: a short attempt, then
    cvc5 (over bit-vectors and over integers) beside attempts of z3 (every answer is that of a complete run of one solver)"""
    end = time.time() + tmo / 1000; step = 1500; k = 0; s = None; side = []
    try:
        while True:
            for logic in ('QF_UFBV', 'tactic', 'ALL'):
                left = int((end - time.time()) * 1000)
                if left <= 20 and k: return z3.unknown, s
                if k == 1:
                    q = z3.Solver()
                    for f in fs: q.add(f)
                    txt = '(set-logic ALL)\n' + q.to_smt2()
                    side = [Side(txt, left / 1000, '--solve-bv-as-int=sum'), Side(txt + '(get-model)\n', left / 1000, '--produce-models')]
                k += 1
                s = z3.Tactic('qfufbv').solver() if logic == 'tactic' else z3.SolverFor(logic)
                s.set('timeout', min(step, max(left, 20)))
                if k > 3: s.set('random_seed', k)
                for f in fs: s.add(f)
                r = s.check()
                if r != z3.unknown: WON[logic] = WON.get(logic, 0) + 1; return r, s
                for x in side:
                    t = x.poll()
                    if t and t.startswith('unsat'): WON['cvc5'] = WON.get('cvc5', 0) + 1; return z3.unsat, None
                    if t and t.startswith('sat') and x is side[1]:
                        try: m = CModel(t)
                        except Exception: continue
                        WON['cvc5'] = WON.get('cvc5', 0) + 1; return z3.sat, m
            step = min(2 * step, 3000)
    finally:
        for x in side: x.stop()
class Side:
    def __init__(self, txt, secs, *opts):
        self.f = tempfile.NamedTemporaryFile('w', suffix='.smt2', prefix='vc-'); self.r = None
        self.o = tempfile.TemporaryFile('w+', prefix='vc-')
        self.f.write(txt); self.f.flush()
        self.p = subprocess.Popen(['cvc5', '--tlimit=%d' % max(1000, secs * 1000)] + list(opts) + [self.f.name], stdout=self.o, stderr=subprocess.DEVNULL)
    def poll(self):
        if self.p and self.p.poll() is not None: self.o.seek(0); self.r = self.o.read().strip(); self.stop()
        return self.r
    def stop(self):
        if self.p:
            try: self.p.kill()
            except Exception: pass
            self.p.wait(); self.p = None; self.f.close(); self.o.close()
class CModel:
    """model printed by cvc5"""
    def __init__(self, txt):
        self.consts, self.funs = [], []
        t = txt[txt.index('\n') + 1:].strip()
        assert t.startswith('(') and t.endswith(')')
        for d in sexprs(t[1:-1]):
            x = sexprs(d[1:-1])            # define-fun name (args) sort body
            if x[0] != 'define-fun': continue
            if x[2] == '()':
                e = z3.parse_smt2_string('(declare-const %s %s)\n(assert (= %s %s))' % (x[1], x[3], x[1], x[4]))
                c = e[0]
                if z3.is_eq(c): self.consts.append((c.arg(0), c.arg(1)) if z3.is_const(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED else (c.arg(1), c.arg(0)))
                elif z3.is_not(c): self.consts.append((c.arg(0), z3.BoolVal(False)))
                else: self.consts.append((c, z3.BoolVal(True)))
            else:
                args = [sexprs(a[1:-1]) for a in sexprs(x[2][1:-1])]
                decl = ''.join('(declare-const %s %s)' % (a, so) for a, so in args)
                sig = '(declare-fun %s (%s) %s)' % (x[1], ' '.join(so for a, so in args), x[3])
                e = z3.parse_smt2_string('%s%s(declare-fun @same (%s %s) Bool)(assert (@same (%s %s) %s))' % (sig, decl, x[3], x[3], x[1], ' '.join(a for a, so in args), x[4]))[0]
                l, body = e.arg(0), e.arg(1); ps = l.children()
                self.funs.append((l.decl(), z3.substitute(body, *[(q, z3.Var(i, q.sort())) for i, q in enumerate(ps)])))
    def model(self): return self
    def eval(self, e, model_completion=True):
        # functions of constants may be nested: replace and simplify until nothing changes
        for _ in range(12):
            n = z3.substitute_funs(e, *self.funs) if self.funs else e
            n = z3.simplify(z3.substitute(n, *self.consts) if self.consts else n)
            if n.eq(e): break
            e = n
        if model_completion and not (z3.is_bv_value(e) or z3.is_true(e) or z3.is_false(e)):
            seen, st, sub_, fn = set(), [e], [], []
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: sub_.append((x, z3.BoolVal(False) if z3.is_bool(x) else z3.BitVecVal(0, x.size())))
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: fn.append((x.decl(), z3.BoolVal(False) if z3.is_bool(x) else z3.BitVecVal(0, x.size())))
                st.extend(x.children())
            if fn: e = z3.substitute_funs(e, *{f.get_id(): (f, v) for f, v in fn}.values())
            if sub_: e = z3.substitute(e, *sub_)
            e = z3.simplify(e)
        return e
def sexprs(t):
    """top-level items of a text"""
    out = []; i = 0; n = len(t)
    while i < n:
        c = t[i]
        if c.isspace(): i += 1; continue
        j = i
        if c == '(':
            d = 0
            while True:
                if t[j] == '|': j = t.index('|', j + 1)
                elif t[j] == '(': d += 1
                elif t[j] == ')':
                    d -= 1
                    if not d: break
                j += 1
            j += 1
        elif c == '|': j = t.index('|', i + 1) + 1
        else:
            while j < n and not t[j].isspace() and t[j] not in '()': j += 1
        out.append(t[i:j]); i = j
    return out
WON = {}
import os
DUMP = float(os.environ.get('VCSLOW', '0'))      # development: keep queries slower than this
def dump(fs, r, t):
    s = z3.Solver()
    for f in fs: s.add(f)
    os.makedirs('/tmp/w/slow', exist_ok=True); n = len(os.listdir('/tmp/w/slow'))
    open('/tmp/w/slow/%04d-%s-%.1f.smt2' % (n, r, t), 'w').write('(set-logic ALL)\n' + s.to_smt2())

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts            # [(cond, obj (0 = null), off)]
    def __repr__(self): return 'Ptr%r' % ([(str(c), o, str(f)) for c, o, f in self.alts],)
class PI:                                                  # integer holding a pointer value
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Fn:                                                  # function pointer
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
NULL = Ptr([(T, 0, bv(0, 64))])
def ptr(obj, off=0): return Ptr([(T, obj, off if not isinstance(off, int) else bv(off, 64))])

class Obj:
    def __init__(s, id, name, size, kind, const=False, live=True):
        s.id, s.name, s.size, s.kind, s.const = id, name, size, kind, const
        s.fn = None          # kind 'uf': z3 function BV64->BV8 (immutable input)
        s.on_read = None
        s.glob = None
        s.fixed = isinstance(size, int)
    def sz(s): return bv(s.size, 64) if s.fixed else s.size

class State:
    __slots__ = ('regs', 'mem', 'gh', 'g')
    def __init__(s, regs, mem, gh, g): s.regs, s.mem, s.gh, s.g = regs, mem, gh, g
    def copy(s): return State(dict(s.regs), dict(s.mem), dict(s.gh), s.g)

class Oblig:
    __slots__ = ('kind', 'name', 'guard', 'claim', 'nfacts', 'where', 'hyp')
    def __init__(s, kind, name, guard, claim, nfacts, where): s.kind, s.name, s.guard, s.claim, s.nfacts, s.where = kind, name, guard, claim, nfacts, where

def same(a, b):
    if a is b: return True
    if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)): return False
    if z3.is_expr(a): return a.sort() == b.sort() and a.eq(b)
    if isinstance(a, Ptr):
        return len(a.alts) == len(b.alts) and all(x[1] == y[1] and x[0].eq(y[0]) and x[2].eq(y[2]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, PI): return same(a.p, b.p)
    if isinstance(a, Fn): return a.name == b.name
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def ite_val(c, a, b):
    if a is b: return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, PI) or isinstance(b, PI):
        if isinstance(a, PI) and isinstance(b, PI): return PI(ite_val(c, a.p, b.p))
        if z3.is_expr(b) and isc(b) and cval(b) == 0: return PI(ite_val(c, a.p, NULL))
        if z3.is_expr(a) and isc(a) and cval(a) == 0: return PI(ite_val(c, NULL, b.p))
        return ite(c, pi_bv(a), pi_bv(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
            return Ptr([(T, a.alts[0][1], ite(c, a.alts[0][2], b.alts[0][2]))])
        m, order = {}, []
        for cc, al in ((c, a.alts), (NOT(c), b.alts)):
            for (k, o, f) in al:
                g = AND(cc, k)
                if z3.is_false(g): continue
                if o in m: m[o] = (OR(m[o][0], g), ite(g, f, m[o][1]))
                else: m[o] = (g, f); order.append(o)
        return Ptr([(m[o][0], o, m[o][1]) for o in order])
    if isinstance(a, Fn) or isinstance(b, Fn):
        if same(a, b): return a
        if isinstance(a, Ptr) and a.alts[0][1] == 0: return b     # may-null function pointer: not needed so far
        raise Unsupported('merge of different function pointers')
    if isinstance(a, (list, tuple)): return type(a)(ite_val(c, x, y) for x, y in zip(a, b))
    if a is None: return b
    if b is None: return a
    if z3.is_bool(a) and z3.is_bv(b): a = ite(a, bv(1, b.size()), bv(0, b.size()))
    if z3.is_bool(b) and z3.is_bv(a): b = ite(b, bv(1, a.size()), bv(0, a.size()))
    return ite(c, a, b)

_bases = {}
def base_of(o):
    if o == 0: return bv(0, 64)
    if o not in _bases: _bases[o] = z3.BitVec('base!%d' % o, 64)
    return _bases[o]
def pi_bv(v):
    if not isinstance(v, PI): return v
    r = None
    for c, o, f in v.p.alts:
        t = add(base_of(o), f)
        r = t if r is None else ite(c, t, r)
    return r


class Arr:
    """byte contents of an object as a function of the offset; updates are layered, reads expand them"""
    __slots__ = ('k', 'a', 'memo')
    n = 0
    def __init__(self, k, *a): self.k, self.a, self.memo = k, a, {}
    @staticmethod
    def base(name):
        Arr.n += 1
        return Arr('base', z3.Function('%s!m%d' % (name, Arr.n), z3.BitVecSort(64), z3.BitVecSort(8)))
    def read(self, i):
        r = self.memo.get(i.get_id())
        if r is not None: return r[1]
        k, a = self.k, self.a
        if k == 'base': r = a[0](i)
        elif k == 'store':
            d = diffc(i, a[1])
            r = a[0].read(i) if d is not None and d != 0 else a[2] if d == 0 else ite(i == a[1], a[2], a[0].read(i))
        elif k == 'copy':                     # prev, off, n, source reader (relative index)
            rel = sub(i, a[1]); c = ult(rel, a[2])
            r = a[0].read(i) if z3.is_false(c) else a[3](rel) if z3.is_true(c) else ite(c, a[3](rel), a[0].read(i))
        elif k == 'ite': r = ite(a[0], a[1].read(i), a[2].read(i))
        self.memo[i.get_id()] = (i, r)
        return r
    def store(self, off, b): return Arr('store', self, off, b)
    def copy(self, off, n, rd): return Arr('copy', self, off, n, rd)

class Exec:
    def __init__(self, module, contracts=None, opts=None):
        self.m = module; self.bdd = BDD(); self.facts = []; self.obl = []
        self.objs = {}; self.nobj = 0; self.globs = {}
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.dry = 0
        self.depth = 0
        self.reads = {}
        self.cand_providers = []
        self.trace = []
        self.fn_exec = {}
        self.loops_done = []
        self.solver_time = 0.0
        self.tmo = self.opts.get('timeout', 20000)
        self._loops = {}
        self.inkeys = {}       # obj id -> True for input objects
        self.stats = {'queries': 0}
        self.cur = None
        self.log = self.opts.get('log', lambda *a: None)
        self.defs = {}; self.fpufs = {}
        self.factset = set(); self.nosu = {}
        self.cur_assume = []
        self.deadline = self.opts.get('deadline')

    # --- objects ----------------------------------------------------------------
    def new_obj(self, name, size, kind='cells', const=False):
        self.nobj += 1; o = Obj(self.nobj, name, size, kind, const); self.objs[o.id] = o
        return o
    def new_input(self, name, size, spec_fn=None):
        """immutable byte object of symbolic size, contents an uninterpreted function"""
        o = self.new_obj(name, size, 'uf', True)
        o.fn = spec_fn if spec_fn is not None else z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
        return o
    def global_obj(self, name):
        if name in self.globs: return self.globs[name]
        g = self.m.glob(name)
        o = self.new_obj('@' + name, g.ty.size if g.ty.size else 1, 'cells', g.const and g.init is not None); o.glob = g
        self.globs[name] = o
        return o

    # --- facts & obligations ----------------------------------------------------
    def fact(self, f):
        if z3.is_true(f): return
        i = f.get_id()
        if i in self.factset: return
        self.factset.add(i); self.facts.append(f)
    def oblige(self, kind, name, st, claim, where=None):
        if self.dry: return
        if z3.is_true(claim): self.stats['trivial'] = self.stats.get('trivial', 0) + 1; return
        if st.g == 0: return
        self.obl.append(Oblig(kind, name, self.bdd.z(st.g), claim, len(self.facts), where or self.where()))
    def where(self):
        i = self.cur
        if i is None: return ''
        f = i.file.split('/src/')[-1] if i.file else ''
        return '%s:%d' % (f, i.line) if f else ''

    def check(self, fs, timeout=None):
        t = time.time()
        if self.deadline and t > self.deadline: raise Unsupported('time budget of this root exhausted')
        r, s = portfolio(fs, timeout or self.tmo); self.stats['queries'] += 1
        if r == z3.sat and self.defs:
            ds = self.cone(fs)
            if ds:
                s = z3.SolverFor('ALL'); s.set('timeout', timeout or self.tmo)
                for f in list(fs) + ds: s.add(f)
                r = s.check(); self.stats['queries'] += 1
        self.solver_time += time.time() - t
        if DUMP and time.time() - t > DUMP: dump(fs, r, time.time() - t)
        return r, s

    # --- constants ----------------------------------------------------------------
    def const(self, c, st):
        k = c.kind; t = c.ty
        if k == 'int':
            return z3.BoolVal(bool(c.v)) if t.w == 1 else bv(c.v, t.w)
        if k == 'null': return NULL
        if k in ('undef',): return self.fresh_ty(t, 'undef')
        if k == 'zero': return self.zero(t)
        if k == 'fp':
            import struct
            return bv(struct.unpack('<Q', struct.pack('<d', c.v))[0], 64) if t.k == 'double' else bv(struct.unpack('<I', struct.pack('<f', c.v))[0], 32)
        if k == 'agg':
            r = [self.const(x, st) for x in c.v]
            return r if t.k == 'vector' else tuple(r)
        if k == 'global': return ptr(self.global_obj(c.v).id)
        if k == 'func': return Fn(c.v)
        if k == 'gep':
            return self.gep(c.v[0], [self.val(x, st) for x in c.v[1]])
        if k == 'cexpr':
            op, ops = c.v; vs = [self.val(x, st) for x in ops]
            if op == 'ptrtoint': return PI(vs[0]) if not isinstance(vs[0], Fn) else fresh('fnaddr')
            if op == 'inttoptr': return self.inttoptr(vs[0])
            if op in ('add', 'sub'): return add(pi_bv(vs[0]), pi_bv(vs[1])) if op == 'add' else sub(pi_bv(vs[0]), pi_bv(vs[1]))
            raise Unsupported('constant expression ' + str(op))
        raise Unsupported('constant ' + k)
    def zero(self, t):
        if t.k == 'int': return F if t.w == 1 else bv(0, t.w)
        if t.k in ('float', 'double'): return bv(0, t.w)
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return tuple(self.zero(x) for x in t.fields)
        if t.k == 'array': return tuple(self.zero(t.el) for _ in range(t.n))
        if t.k == 'vector': return [self.zero(t.el) for _ in range(t.n)]
        raise Unsupported('zero ' + t.k)
    def fresh_ty(self, t, name):
        if t.k == 'int': return fresh(name, 0) if t.w == 1 else fresh(name, t.w)
        if t.k in ('float', 'double'): return fresh(name, t.w)
        if t.k == 'ptr':
            o = self.new_obj('unknown:' + name, 0); return ptr(o.id, fresh(name))
        if t.k == 'struct': return tuple(self.fresh_ty(x, name) for x in t.fields)
        if t.k == 'array': return tuple(self.fresh_ty(t.el, name) for _ in range(t.n))
        if t.k == 'vector': return [self.fresh_ty(t.el, name) for _ in range(t.n)]
        raise Unsupported('fresh ' + t.k)
    def val(self, v, st):
        if type(v).__name__ == 'Reg':
            r = st.regs.get(v.id)
            if r is None and v.id not in st.regs: raise Unsupported('undefined register')
            return r
        return self.const(v, st)

    def gep(self, ty, ops):
        p = ops[0]
        off = bv(0, 64)
        t = ty
        for n, ix in enumerate(ops[1:]):
            if n > 0:
                if t.k == 'struct':
                    k = cval(ix); off = add(off, bv(t.offs[k], 64)); t = t.fields[k]; continue
                t = t.el
            ix = pi_bv(ix)
            if z3.is_bool(ix): ix = ite(ix, bv(-1, 64), bv(0, 64))
            sz = t.size if t.k != 'int' or t.w > 8 else 1
            off = add(off, mulc(sext(ix, 64) if ix.size() < 64 else ix, sz))
        if isinstance(p, Fn): raise Unsupported('gep on function')
        return Ptr([(c, o, add(f, off)) for c, o, f in p.alts])
    def inttoptr(self, v):
        if isinstance(v, PI): return v.p
        if isc(v) and cval(v) == 0: return NULL
        if isc(v): return ptr(self.new_obj('int2ptr', 0).id, v)
        # base(o)+off
        d, c = lin(v)
        for x, (t, co) in d.items():
            if co == 1 and t.decl().name().startswith('base!'):
                o = int(t.decl().name()[5:]); return ptr(o, sub(v, base_of(o)))
        raise Unsupported('inttoptr')

    # --- memory -----------------------------------------------------------------
    def cells(self, st, o):
        c = st.mem.get(o.id)
        if c is None:
            c = {}
            if o.glob is not None and o.glob.init is not None and o.const:
                self.init_cells(c, 0, o.glob.init)
            st.mem[o.id] = c
        return c
    def init_cells(self, c, off, k):
        t = k.ty
        if k.kind == 'agg':
            if t.k == 'struct':
                for x, fo in zip(k.v, t.offs): self.init_cells(c, off + fo, x)
            else:
                es = t.el.size
                for i, x in enumerate(k.v): self.init_cells(c, off + i * es, x)
        elif k.kind == 'zero':
            self.zero_cells(c, off, t)
        elif k.kind == 'undef': pass
        else:
            v = self.const(k, None)
            if z3.is_bool(v): v = ite(v, bv(1, 8), bv(0, 8))
            c[off] = (t.size, v)
    def zero_cells(self, c, off, t):
        if t.k == 'struct':
            for x, fo in zip(t.fields, t.offs): self.zero_cells(c, off + fo, x)
        elif t.k in ('array', 'vector'):
            for i in range(t.n): self.zero_cells(c, off + i * t.el.size, t.el)
        else: c[off] = (t.size, self.zero(t) if not (t.k == 'int' and t.w == 1) else bv(0, 8))

    def to_bytes(self, v, n):
        """value -> list of n byte terms (little endian); None if it is a pointer"""
        v = pi_bv(v) if isinstance(v, PI) else v
        if isinstance(v, Ptr): v = pi_bv(PI(v))
        if isinstance(v, Fn): return [fresh('fnbyte', 8) for _ in range(n)]
        if z3.is_bool(v): v = ite(v, bv(1, 8), bv(0, 8))
        if isinstance(v, list):
            out = []
            for x in v:
                x = ite(x, bv(1, 8), bv(0, 8)) if z3.is_bool(x) else x
                out += self.to_bytes(x, x.size() // 8)
            return out
        if v.size() < 8 * n: v = zext(v, 8 * n)
        return [extract(8 * i + 7, 8 * i, v) for i in range(n)]

    def arr_of(self, st, o):
        """switch a fixed-size cell object to array representation"""
        c = st.mem.get(o.id)
        if isinstance(c, tuple): return c[1]
        a = Arr.base('mem%d' % o.id)
        if c is None: c = self.cells(st, o)
        for off in sorted(c):
            n, v = c[off]
            for i, b in enumerate(self.to_bytes(v, n)): a = a.store(bv(off + i, 64), b)
        st.mem[o.id] = ('arr', a)
        return a

    def bounds(self, st, o, off, n, what, c=T):
        """obligation: [off, off+n) lies inside the object"""
        if o.fixed and isc(off):
            ok = z3.BoolVal(cval(off) + n <= o.size)
        elif o.fixed:
            ok = z3.And(ule(off, bv(o.size - n, 64))) if o.size >= n else F
        else:
            ok = AND(ule(bv(n, 64), o.size), ule(off, sub(o.size, bv(n, 64)))) if n > 1 else ult(off, o.size)
        self.oblige('memory', '%s of %d byte(s) at %s stays inside the object' % (what, n, o.name), st, IMP(c, ok))
    def load(self, st, p, t):
        if isinstance(p, Fn): raise Unsupported('load from function')
        if t.k == 'struct':
            return tuple(self.load(st, Ptr([(c, o, add(f, bv(fo, 64))) for c, o, f in p.alts]), x) for x, fo in zip(t.fields, t.offs))
        if t.k == 'array':
            return tuple(self.load(st, Ptr([(c, o, add(f, bv(i * t.el.size, 64))) for c, o, f in p.alts]), t.el) for i in range(t.n))
        n = t.size
        r = None
        for c, oid, off in p.alts:
            if oid == 0:
                self.oblige('memory', 'null pointer is not read', st, NOT(c)); continue
            o = self.objs[oid]
            self.bounds(st, o, off, n, 'read', c)
            v = self.load1(st, o, off, t, n)
            r = v if r is None else ite_val(c, v, r)
        if r is None: r = self.fresh_ty(t, 'nullread')
        return r
    def cast_to(self, v, t, n):
        if t.k == 'ptr':
            if isinstance(v, (Ptr, Fn)): return v
            if isinstance(v, PI): return v.p
            return self.inttoptr(v)
        if isinstance(v, Fn): return fresh('fnaddr')
        if isinstance(v, Ptr):
            v = PI(v)
        if isinstance(v, PI):
            if t.k == 'int' and t.w == 64: return v
            v = pi_bv(v)
        if z3.is_bool(v): v = ite(v, bv(1, 8), bv(0, 8))
        if isinstance(v, list):
            if t.k == 'vector' and t.n == len(v): return v
            v = concat(list(reversed(self.to_bytes(v, n))))
        if t.k == 'int':
            if t.w == 1: return NOT(eq(extract(0, 0, v), bv(0, 1)))
            return extract(t.w - 1, 0, v) if v.size() > t.w else zext(v, t.w)
        if t.k == 'vector':
            ew = t.el.w; return [extract(i * ew + ew - 1, i * ew, v) for i in range(t.n)]
        return v
    def load1(self, st, o, off, t, n):
        if o.kind == 'uf':
            bs = []
            for i in range(n):
                k = add(off, bv(i, 64))
                if o.on_read: o.on_read(k)
                bs.append(o.fn(k))
            return self.cast_to(concat(list(reversed(bs))), t, n)
        c = st.mem.get(o.id)
        if isinstance(c, tuple):
            bs = [c[1].read(add(off, bv(i, 64))) for i in range(n)]
            return self.cast_to(concat(list(reversed(bs))), t, n)
        c = self.cells(st, o)
        if isc(off):
            k = cval(off)
            if k in c and c[k][0] == n: return self.cast_to(c[k][1], t, n)
            return self.cast_to(self.load_bytes(st, o, c, k, n, t), t, n)
        # symbolic offset into a fixed-size object: runs of equal cells
        if o.const and c and len(c) <= 4096:
            return self.table(o, c, off, t, n)
        if c and all(m == n for m, _ in c.values()) and any(isinstance(v, (Ptr, Fn)) for _, v in c.values()):
            r = None
            for k in sorted(c):
                v = self.cast_to(c[k][1], t, n)
                r = v if r is None else ite_val(eq(off, bv(k, 64)), v, r)
            return r
        if o.fixed and o.size <= 24 and n == 1 and not any(isinstance(v, (Ptr, Fn)) for _, v in c.values()):
            r = None
            for k in range(o.size):
                v = self.load_bytes(st, o, self.cells(st, o), k, 1, t)
                r = v if r is None else ite(eq(off, bv(k, 64)), v, r)
            return self.cast_to(r, t, n)
        a = self.arr_of(st, o)
        bs = [a.read(add(off, bv(i, 64))) for i in range(n)]
        return self.cast_to(concat(list(reversed(bs))), t, n)
    def table(self, o, c, off, t, n):
        ks = sorted(c); vs = [(k, self.cast_to(c[k][1], t, n)) for k in ks if c[k][0] == n]
        if len(vs) != len(ks): # mixed widths: go through bytes
            tmp = State({}, {o.id: c}, {}, 1); a = self.arr_of(tmp, o)
            return self.cast_to(concat([a.read(add(off, bv(i, 64))) for i in reversed(range(n))]), t, n)
        # index variable: off = scale*x + base with a narrow x when the offset has that shape
        d, base = lin(off); x, scale = off, 1
        if len(d) == 1 and base < (1 << 31):
            t1, co = next(iter(d.values()))
            if co < 256 and z3.is_app_of(t1, z3.Z3_OP_ZERO_EXT) and t1.arg(0).size() <= 48 and co: x, scale = t1.arg(0), co
            else: base = 0
        else: base = 0
        if x is off: ents = vs
        else: ents = [((k - base) // scale, v) for k, v in vs if k >= base and (k - base) % scale == 0 and (k - base) // scale < (1 << x.size())]
        if not ents: return vs[0][1]
        w = x.size(); runs = []          # (first index, value or (start value, step) progression)
        i = 0
        while i < len(ents):
            k, v = ents[i]; j = i
            while j + 1 < len(ents) and same(ents[j + 1][1], v): j += 1
            if j == i and scale >= 1 and x is not off and z3.is_expr(v) and z3.is_bv(v) and isc(v):
                j2 = i
                while j2 + 1 < len(ents) and ents[j2 + 1][0] == ents[j2][0] + 1 and z3.is_expr(ents[j2 + 1][1]) and isc(ents[j2 + 1][1]) and cval(ents[j2 + 1][1]) == (cval(ents[j2][1]) + 1) & ((1 << v.size()) - 1): j2 += 1
                if j2 > i + 1:
                    xv = zext(x, v.size()) if v.size() >= w else trunc(x, v.size())
                    runs.append((k, add(xv, bv(cval(v) - k, v.size())))); i = j2 + 1; continue
            if not (runs and same(runs[-1][1], v)): runs.append((k, v))
            i = j + 1
        r = runs[-1][1]
        for i in range(len(runs) - 2, -1, -1):
            r = ite_val(ult(x, bv(runs[i + 1][0], w)), runs[i][1], r)
        return r
    def load_bytes(self, st, o, c, k, n, t):
        # a pointer cell partially read?
        out = []
        for i in range(n):
            b = None
            for j in range(k + i, max(-1, k + i - 17), -1):
                if j in c and c[j][0] > k + i - j:
                    m, v = c[j]
                    b = self.to_bytes(v, m)[k + i - j]; break
                if j in c: break
            if b is None:
                if n == 8 and i == 0 and t is not None and t.k == 'ptr' and not any(x in c for x in range(k, k + n)):
                    v = self.fresh_ty(t, 'uninit'); c[k] = (n, v); return v
                b = fresh('uninit', 8); c[k + i] = (1, b)
            out.append(b)
        return concat(list(reversed(out)))
    def store(self, st, p, v, t):
        if isinstance(p, Fn): raise Unsupported('store to function')
        if t.k == 'struct':
            for x, fo, y in zip(t.fields, t.offs, v): self.store(st, Ptr([(c, o, add(f, bv(fo, 64))) for c, o, f in p.alts]), y, x)
            return
        if t.k == 'array':
            for i in range(t.n): self.store(st, Ptr([(c, o, add(f, bv(i * t.el.size, 64))) for c, o, f in p.alts]), v[i], t.el)
            return
        n = t.size
        if z3.is_expr(v) and z3.is_bool(v): v = ite(v, bv(1, 8), bv(0, 8))
        elif z3.is_expr(v) and v.size() < 8 * n: v = zext(v, 8 * n)
        single = len(p.alts) == 1
        for c, oid, off in p.alts:
            if oid == 0:
                self.oblige('memory', 'null pointer is not written', st, NOT(c)); continue
            o = self.objs[oid]
            if o.const:
                self.oblige('frame', 'read-only object %s is not written' % o.name, st, NOT(c)); continue
            self.bounds(st, o, off, n, 'write', c)
            if o.kind == 'blackhole': continue
            vv = v
            if not single:
                vv = ite_val(c, v, self.load1(st, o, off, t, n))
            self.store1(st, o, off, vv, n)
    def store1(self, st, o, off, v, n):
        c = st.mem.get(o.id)
        if isinstance(c, tuple):
            a = c[1]
            for i, b in enumerate(self.to_bytes(v, n)): a = a.store(add(off, bv(i, 64)), b)
            st.mem[o.id] = ('arr', a); return
        c = dict(self.cells(st, o))
        if isc(off):
            k = cval(off)
            if not (k in c and c[k][0] == n) or any(j in c for j in range(k + 1, k + n)):
                # split overlapping cells
                for j in [j for j in list(c) if j < k + n and j + c[j][0] > k]:
                    m, w = c.pop(j)
                    if j >= k and j + m <= k + n: continue
                    for i, b in enumerate(self.to_bytes(w, m)):
                        if not (k <= j + i < k + n): c[j + i] = (1, b)
            c[k] = (n, v); st.mem[o.id] = c; return
        if o.fixed and o.size <= 24 and n == 1 and not any(isinstance(w, (Ptr, Fn)) for _, w in c.values()):
            st.mem[o.id] = c; nb = {}
            for k in range(o.size):
                old = self.load_bytes(st, o, c, k, 1, None); nb[k] = (1, ite(eq(off, bv(k, 64)), v if v.size() == 8 else trunc(v, 8), old))
            st.mem[o.id] = nb; return
        st.mem[o.id] = c
        a = self.arr_of(st, o)
        for i, b in enumerate(self.to_bytes(v, n)): a = a.store(add(off, bv(i, 64)), b)
        st.mem[o.id] = ('arr', a)

    # --- state merge ------------------------------------------------------------
    def merge(self, sts):
        if len(sts) == 1: return sts[0]
        g = 0
        for s in sts: g = self.bdd.OR(g, s.g)
        r = sts[-1]; acc = r.g
        regs, mem, gh = dict(r.regs), dict(r.mem), dict(r.gh)
        for s in reversed(sts[:-1]):
            both = self.bdd.OR(acc, s.g)
            c = self.bdd.z(self.bdd.restrict(s.g, both)) if s.g != 0 else F
            for k, v in s.regs.items():
                w = regs.get(k)
                if w is None: regs[k] = v
                elif w is not v: regs[k] = ite_val(c, v, w)
            for k, v in s.mem.items():
                w = mem.get(k)
                if w is v: continue
                if w is None:
                    o = self.objs[k]
                    if o.const: mem[k] = v
                    elif isinstance(v, tuple): mem[k] = v    # object not touched on the other side
                    else: mem[k] = v
                    continue
                mem[k] = self.merge_mem(c, k, v, w)
            for k, w in mem.items(): pass
            for k, v in s.gh.items():
                w = gh.get(k)
                gh[k] = v if w is None else ite_val(c, v, w)
            acc = both
        return State(regs, mem, gh, g)
    def merge_mem(self, c, oid, v, w):
        o = self.objs[oid]
        if isinstance(v, tuple) or isinstance(w, tuple):
            a = [x[1] if isinstance(x, tuple) else self.arr_of(State({}, {oid: x}, {}, 1), o) for x in (v, w)]
            return ('arr', a[0] if a[0] is a[1] else Arr('ite', c, a[0], a[1]))
        out = {}
        keys = set(v) | set(w)
        if all(k in v and k in w and v[k][0] == w[k][0] for k in keys):
            for k in keys:
                x, y = v[k][1], w[k][1]
                out[k] = (v[k][0], x if x is y else ite_val(c, x, y))
            return out
        # differing layouts: cells present on one side only were uninitialised on the other
        covv = set(); covw = set()
        for k, (n, _) in v.items(): covv.update(range(k, k + n))
        for k, (n, _) in w.items(): covw.update(range(k, k + n))
        for k in keys:
            if k in v and k in w and v[k][0] == w[k][0]:
                out[k] = (v[k][0], ite_val(c, v[k][1], w[k][1]))
            elif k in v and not any(b in covw for b in range(k, k + v[k][0])): out[k] = v[k]
            elif k in w and not any(b in covv for b in range(k, k + w[k][0])): out[k] = w[k]
            else:
                for src, oth in ((v, w), (w, v)):
                    if k in src:
                        for i in range(src[k][0]):
                            if k + i in out: continue
                            x = self.byte_at(v, k + i); y = self.byte_at(w, k + i)
                            if x is None: x = y
                            if y is None: y = x
                            out[k + i] = (1, ite_val(c, x, y))
        # remove overlaps (a wide cell that was also split)
        ks = sorted(out)
        for a, b in zip(ks, ks[1:]):
            if a in out and a + out[a][0] > b:
                n, x = out.pop(a)
                for i, bb in enumerate(self.to_bytes(x, n)): out.setdefault(a + i, (1, bb))
        return out
    def byte_at(self, c, k):
        for j in range(k, k - 17, -1):
            if j in c:
                n, v = c[j]
                return self.to_bytes(v, n)[k - j] if n > k - j else None
        return None

    # --- CFG analysis -------------------------------------------------------------
    def analyse(self, F_):
        if F_.name in self._loops: return self._loops[F_.name]
        byid = F_.byid; order = []; seen = set()
        def dfs(b):
            st_ = [(b, iter(byid[b].succ))]; seen.add(b)
            while st_:
                x, it = st_[-1]
                for s in it:
                    if s not in seen: seen.add(s); st_.append((s, iter(byid[s].succ))); break
                else: order.append(x); st_.pop()
        dfs(F_.entry.id); rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in byid[b].succ: preds[s].append(b)
        idom = {F_.entry.id: F_.entry.id}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while num[b] > num[a]: b = idom[b]
            return a == b
        loops = {}
        for b in rpo:
            for s in byid[b].succ:
                if num[s] <= num[b]:
                    if not dom(s, b): raise Unsupported('irreducible loop in ' + F_.name)
                    body = loops.setdefault(s, {s}); w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w.extend(preds[x])
        inner = {}   # block -> innermost loop header
        for h in sorted(loops, key=lambda h: -len(loops[h])):
            for b in loops[h]: inner[b] = h
        # liveness
        use, dfn, phiuse = {}, {}, {}
        for b in rpo:
            u_, d_ = set(), set()
            for i in byid[b].phis:
                d_.add(i.id)
                for pb, v in i.x:
                    if type(v).__name__ == 'Reg': phiuse.setdefault((pb, b), set()).add(v.id)
            for i in byid[b].insts:
                for v in list(i.ops) + ([i.x['fv']] if i.op == 'call' and i.x['fv'] is not None else []):
                    if type(v).__name__ == 'Reg' and v.id not in d_: u_.add(v.id)
                d_.add(i.id)
            use[b], dfn[b] = u_, d_
        live = {b: set() for b in rpo}; ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for s in byid[b].succ:
                    o |= (live[s] - set(i.id for i in byid[s].phis)) | phiuse.get((b, s), set())
                n = use[b] | (o - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        r = dict(rpo=rpo, num=num, loops=loops, inner=inner, preds=preds, live=live)
        self._loops[F_.name] = r
        return r

    # --- execution ------------------------------------------------------------------
    def call_fn(self, name, args, st):
        """execute a defined function on arguments; returns (ret, state) or None if it never returns"""
        F_ = self.m.func(name)
        if F_ is None: raise Unsupported('no body for ' + name)
        self.depth += 1
        if self.depth > self.opts.get('max_depth', 40): raise Unsupported('recursion without contract: ' + name)
        self.fn_exec[name] = self.fn_exec.get(name, 0) + 1
        info = self.analyse(F_)
        regs = {p.id: a for p, a in zip(F_.params, args)}
        saved = st.regs
        s = State(regs, st.mem, st.gh, st.g)
        rets = []
        self.region(F_, info, None, [(None, s)], rets)
        self.depth -= 1
        if not rets: return None
        outs = []
        for v, s in rets:
            outs.append(State({'ret': v} if v is not None else {}, s.mem, s.gh, s.g))
        m = self.merge(outs)
        rv = m.regs.get('ret')
        m = State(dict(saved), dict(m.mem), dict(m.gh), m.g)
        return rv, m

    def region(self, F_, info, header, incoming, rets):
        """execute loop body (header) or the whole function (None). Returns (backedges, exits)."""
        pend = {}; back, exits = [], []
        loops, inner = info['loops'], info['inner']
        blocks = loops[header] if header else None
        start = header if header else F_.entry.id
        pend[start] = list(incoming)
        for b in info['rpo']:
            if b not in pend: continue
            if blocks is not None and b not in blocks: continue
            ins = pend.pop(b)
            sts = [s for _, s in ins if s.g != 0]
            if not sts: continue
            st = self.merge(sts)
            def route(tgt, es):
                if header and tgt == header: back.append(es)
                elif blocks is not None and tgt not in blocks: exits.append((tgt, es))
                else: pend.setdefault(tgt, []).append((b, es))
            if b in loops and b != header:
                for tgt, es in self.loop(F_, info, b, st.copy(), rets):
                    route(tgt, es)
                continue
            self.block(F_, info, F_.byid[b], st.copy(), route, rets)
        return back, exits

    def edge(self, F_, info, src, tgt, st, cond):
        g = self.bdd.AND(st.g, cond)
        if g == 0: return None
        B = F_.byid[tgt]
        lv = info['live'][tgt]
        regs = {}
        for k in lv:
            if k in st.regs: regs[k] = st.regs[k]
        for ph in B.phis:
            for pb, v in ph.x:
                if pb == src: regs[ph.id] = self.val(v, st); break
        return State(regs, st.mem, st.gh, g)

    def block(self, F_, info, B, st, route, rets):
        for I in B.insts:
            self.cur = I
            op = I.op
            if op == 'br':
                if not I.ops:
                    es = self.edge(F_, info, B.id, I.x['succ'][0], st, 1)
                    if es: route(I.x['succ'][0], es)
                else:
                    c = self.bdd.of(self.tobool(self.val(I.ops[0], st)))
                    t, f = I.x['succ']
                    if t == f: c2 = [(t, 1)]
                    else: c2 = [(t, c), (f, self.bdd.NOT(c))]
                    for tgt, cc in c2:
                        es = self.edge(F_, info, B.id, tgt, st, cc)
                        if es: route(tgt, es)
                return
            if op == 'switch':
                v = self.val(I.ops[0], st); v = pi_bv(v)
                rest = 1; by = {}
                for k, tgt in I.x['cases']:
                    c = self.bdd.of(eq(v, bv(k, v.size())) if z3.is_bv(v) else (v if k else NOT(v)))
                    by[tgt] = self.bdd.OR(by.get(tgt, 0), self.bdd.AND(rest, c)); rest = self.bdd.AND(rest, self.bdd.NOT(c))
                by[I.x['default']] = self.bdd.OR(by.get(I.x['default'], 0), rest)
                for tgt, cc in by.items():
                    es = self.edge(F_, info, B.id, tgt, st, cc)
                    if es: route(tgt, es)
                return
            if op == 'ret':
                rets.append((self.val(I.ops[0], st) if I.ops else None, st)); return
            if op == 'unreachable':
                self.oblige('reach', 'unreachable code is not reached', st, F); return
            if op == 'call' or op == 'invoke':
                r = self.call(I, st)
                if r is None: return          # does not return
                v, st = r
                if I.ty.k != 'void': st.regs[I.id] = v
                if op == 'invoke':
                    es = self.edge(F_, info, B.id, I.x['normal'], st, 1)
                    if es: route(I.x['normal'], es)
                    return
                continue
            st.regs[I.id] = self.simple(I, st)
        raise Unsupported('fell off block')

    def tobool(self, v):
        if z3.is_bool(v): return v
        return NOT(eq(v, bv(0, v.size())))

    def simple(self, I, st):
        op = I.op
        if op == 'alloca':
            n = self.val(I.ops[0], st) if I.ops else bv(1, 32)
            o = self.new_obj('local', I.x.size * (cval(n) if isc(n) else 1)); return ptr(o.id)
        if op == 'load': return self.load(st, self.val(I.ops[0], st), I.ty)
        if op == 'store':
            self.store(st, self.val(I.ops[1], st), self.val(I.ops[0], st), I.ops[0].ty); return None
        vs = [self.val(o, st) for o in I.ops]
        if op == 'getelementptr': return self.gep(I.x, vs)
        if op == 'select':
            c = vs[0]
            if isinstance(c, list): return [ite_val(x, a, b) for x, a, b in zip(c, vs[1], vs[2])]
            return ite_val(self.tobool(c), vs[1], vs[2])
        if op == 'icmp': return self.icmp(I.x, vs[0], vs[1])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.lift(lambda a, b: self.arith(op, a, b, st), vs)
        if op in ('zext', 'sext', 'trunc'):
            t = I.ty.el if I.ty.k == 'vector' else I.ty
            def cv(a):
                a = pi_bv(a)
                if z3.is_bool(a):
                    return ite(a, bv(1 if op == 'zext' else -1, t.w), bv(0, t.w))
                if op == 'trunc':
                    return NOT(eq(extract(0, 0, a), bv(0, 1))) if t.w == 1 else trunc(a, t.w)
                return zext(a, t.w) if op == 'zext' else sext(a, t.w)
            return self.lift(cv, vs)
        if op == 'ptrtoint':
            if isinstance(vs[0], Fn): return fresh('fnaddr')
            return PI(vs[0]) if I.ty.w == 64 else trunc(pi_bv(PI(vs[0])), I.ty.w)
        if op == 'inttoptr': return self.inttoptr(vs[0])
        if op == 'freeze': return vs[0]
        if op == 'bitcast':
            n = I.ty.size
            v = vs[0]
            if isinstance(v, list):
                if v and z3.is_bool(v[0]):   # <16 x i1> -> i16
                    v = concat([ite(b, bv(1, 1), bv(0, 1)) for b in reversed(v)])
                else: v = concat(list(reversed(v)))
                if I.ty.k != 'vector': return v
            if I.ty.k == 'vector':
                ew = I.ty.el.w
                return [extract(i * ew + ew - 1, i * ew, v) for i in range(I.ty.n)]
            return v
        if op == 'extractvalue':
            v = vs[0]
            for k in I.x: v = v[k]
            return v
        if op == 'insertvalue':
            def ins(a, path, v):
                a = list(a)
                a[path[0]] = v if len(path) == 1 else ins(a[path[0]], path[1:], v)
                return tuple(a)
            return ins(vs[0], I.x, vs[1])
        if op == 'extractelement':
            if not isc(vs[1]): raise Unsupported('vector index')
            return vs[0][cval(vs[1])]
        if op == 'insertelement':
            a = list(vs[0]); a[cval(vs[2])] = vs[1]; return a
        if op == 'shufflevector':
            a = list(vs[0]) + list(vs[1])
            return [a[k] if k >= 0 else a[0] for k in I.x]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            return self.fp(I, vs, st)
        raise Unsupported('instruction ' + op)
    def lift(self, f, vs):
        if isinstance(vs[0], list): return [f(*[v[i] for v in vs]) for i in range(len(vs[0]))]
        return f(*vs)
    def arith(self, op, a, b, st):
        if op == 'sub' and isinstance(a, PI) and isinstance(b, PI): return self.pdiff(a.p, b.p)
        if op in ('add', 'sub') and isinstance(a, PI) and not isinstance(b, PI):
            return PI(Ptr([(c, o, add(f, b) if op == 'add' else sub(f, b)) for c, o, f in a.p.alts]))
        if op == 'add' and isinstance(b, PI) and not isinstance(a, PI): return self.arith(op, b, a, st)
        a, b = pi_bv(a), pi_bv(b)
        if z3.is_bool(a) or z3.is_bool(b):
            if op == 'and': return AND(a, b)
            if op == 'or': return OR(a, b)
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(b): return NOT(a)
                if z3.is_true(a): return NOT(b)
                if z3.is_false(b): return a
                return z3.Xor(a, b)
            if op == 'mul': return AND(a, b)
            raise Unsupported('i1 ' + op)
        w = a.size()
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            if isc(b) and not isc(a) and leaves_const(a): return leafmap(a, lambda l: self.arith(op, l, b, st))
            if isc(a) and not isc(b) and leaves_const(b): return leafmap(b, lambda l: self.arith(op, a, l, st))
        if op == 'add': return add(a, b)
        if op == 'sub': return sub(a, b)
        if op == 'mul':
            if isc(a) and isc(b): return bv(cval(a) * cval(b), w)
            if isc(b): return mulc(a, cval(b))
            if isc(a): return mulc(b, cval(a))
            return a * b
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isc(y):
                    if cval(y) == 0: return y
                    if cval(y) == (1 << w) - 1: return x
            if isc(a) and isc(b): return bv(cval(a) & cval(b), w)
            return a & b
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                if isc(y) and cval(y) == 0: return x
            if isc(a) and isc(b): return bv(cval(a) | cval(b), w)
            return a | b
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if isc(y) and cval(y) == 0: return x
            if isc(a) and isc(b): return bv(cval(a) ^ cval(b), w)
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if isc(b):
                k = cval(b)
                if k == 0: return a
                if isc(a):
                    if op == 'shl': return bv(cval(a) << k, w)
                    if op == 'lshr': return bv(cval(a) >> k, w)
                    return bv(sval(a) >> k, w)
                if op == 'shl' and k < w: return mulc(a, 1 << k) if False else (a << b)
            if isc(a) and cval(a) == 0: return a
            return a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b
        self.oblige('arith', 'division by zero does not occur', st, NOT(eq(b, bv(0, w))))
        if isc(a) and isc(b) and cval(b):
            if op == 'udiv': return bv(cval(a) // cval(b), w)
            if op == 'urem': return bv(cval(a) % cval(b), w)
        if isc(b) and cval(b) & (cval(b) - 1) == 0 and op in ('udiv', 'urem'):
            k = cval(b).bit_length() - 1
            return z3.LShR(a, bv(k, w)) if op == 'udiv' else a & bv(cval(b) - 1, w)
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'urem': return z3.URem(a, b)
        if op == 'sdiv': return a / b
        return z3.SRem(a, b)
    def pdiff(self, p, q):
        if len(p.alts) == 1 and len(q.alts) == 1:
            (c, o, f), (d, r, g) = p.alts[0], q.alts[0]
            if o == r: return sub(f, g)
            return sub(add(base_of(o), f), add(base_of(r), g))
        r = None
        for c, o, f in p.alts:
            for d, q_, g in q.alts:
                t = sub(f, g) if o == q_ else sub(add(base_of(o), f), add(base_of(q_), g))
                r = t if r is None else ite(AND(c, d), t, r)
        return r
    def icmp(self, pred, a, b):
        if isinstance(a, list): return [self.icmp(pred, x, y) for x, y in zip(a, b)]
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = z3.BoolVal(isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name)
            return e if pred == 'eq' else NOT(e)
        if isinstance(a, PI) and isinstance(b, PI): a, b = a.p, b.p
        if isinstance(a, PI) and isc(b) and cval(b) == 0: a, b = a.p, NULL
        if isinstance(b, PI) and isc(a) and cval(a) == 0: a, b = NULL, b.p
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = None
            for c, o, f in a.alts:
                for d, q, g in b.alts:
                    if o == q: t = self.bcmp(pred, f, g)
                    elif pred == 'eq': t = F
                    elif pred == 'ne': t = T
                    else: t = self.bcmp(pred, add(base_of(o), f), add(base_of(q), g))
                    r = t if r is None else ite(AND(c, d), t, r)
            return r
        a, b = pi_bv(a), pi_bv(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('pointer/int compare')
        if z3.is_bool(a):
            if z3.is_true(b): e = a
            elif z3.is_false(b): e = NOT(a)
            else: e = (a == b)
            if pred == 'eq': return e
            if pred == 'ne': return NOT(e)
            a, b = ite(a, bv(1, 1), bv(0, 1)), ite(b, bv(1, 1), bv(0, 1))
        return self.bcmp(pred, a, b)
    def bcmp(self, p, a, b):
        if p == 'eq': return eq(a, b)
        if p == 'ne': return NOT(eq(a, b))
        if p == 'ult': return ult(a, b)
        if p == 'ule': return ule(a, b)
        if p == 'ugt': return ult(b, a)
        if p == 'uge': return ule(b, a)
        if p == 'slt': return slt(a, b)
        if p == 'sle': return sle(a, b)
        if p == 'sgt': return slt(b, a)
        return sle(b, a)
    # floating point: values are IEEE bit patterns
    def fsort(self, w): return z3.Float64() if w == 64 else z3.Float32()
    def tofp(self, b): return z3.fpBVToFP(b, self.fsort(b.size()))
    def frombits(self, name, mk, w, *args):
        """bit pattern of the operation's result: a function of the operands, defined (when a proof
        needs it) by the IEEE value mk(operands); the pattern of a NaN result is left open"""
        f = mk(*args)
        if all(isc(a) for a in args):
            b = z3.simplify(z3.fpToIEEEBV(f))
            if isc(b) and not z3.is_true(z3.simplify(z3.fpIsNaN(f))): return b
        k = name + str([str(a.sort()) for a in args]) + str(w)
        u = self.fpufs.get(k)
        if u is None:
            u = self.fpufs[k] = z3.Function('fp_%d_%s_%d' % (len(self.fpufs), name, w), *[a.sort() for a in args], z3.BitVecSort(w))
            self.defs[u.name()] = mk
        return u(*args)
    def cone(self, fs):
        """definitions of the floating point results mentioned in fs"""
        out = []; seen = set(); stack = list(fs)
        while stack:
            e = stack.pop(); i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app_of(e, z3.Z3_OP_UNINTERPRETED) and e.num_args():
                mk = self.defs.get(e.decl().name())
                if mk is not None: d = self.tofp(e) == mk(*e.children()); out.append(d); stack.append(d)
            stack.extend(e.children())
        return out
    def itofp(self, v, signed, w):
        RNE = z3.RNE()
        if w == 64 and v.size() <= 32:                 # exact: bit-level definition
            n = v.size(); neg = slt(v, bv(0, n)) if signed else F
            m = zext(ite(neg, sub(bv(0, n), v), v), 64); r = bv(0, 64)
            for k in range(n): r = ite(NOT(eq(extract(k, k, m), bv(0, 1))), bv((1023 + k) << 52, 64) | ((m << bv(52 - k, 64)) & bv((1 << 52) - 1, 64)), r)
            return r | ite(neg, bv(1 << 63, 64), bv(0, 64))
        return self.frombits('sitofp' if signed else 'uitofp', lambda v: z3.fpSignedToFP(RNE, v, self.fsort(w)) if signed else z3.fpUnsignedToFP(RNE, v, self.fsort(w)), w, v)
    def fpconv(self, b, w):
        if b.size() == w: return b
        return self.frombits('fpconv', lambda b: z3.fpFPToFP(z3.RNE(), self.tofp(b), self.fsort(w)), w, b)
    def fp(self, I, vs, st):
        op = I.op; RNE = z3.RNE()
        if op == 'fneg': return vs[0] ^ bv(1 << (vs[0].size() - 1), vs[0].size())
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            g = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return self.frombits(op, lambda a, b: g(RNE, self.tofp(a), self.tofp(b)), vs[0].size(), vs[0], vs[1])
        if op == 'fcmp':
            a, b = self.tofp(vs[0]), self.tofp(vs[1]); p = I.x
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if p == 'ord': return z3.Not(un)
            if p == 'uno': return un
            base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[p[1:]](a, b)
            return z3.Or(un, base) if p[0] == 'u' else z3.And(z3.Not(un), base)
        if op in ('fpext', 'fptrunc'): return self.fpconv(vs[0], I.ty.w)
        if op in ('uitofp', 'sitofp'):
            v = pi_bv(vs[0])
            if z3.is_bool(v): v = ite(v, bv(1, 32), bv(0, 32)) if op == 'uitofp' else ite(v, bv(-1, 32), bv(0, 32))
            return self.itofp(v, op == 'sitofp', I.ty.w)
        w = I.ty.w
        return z3.fpToSBV(z3.RTZ(), self.tofp(vs[0]), z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), self.tofp(vs[0]), z3.BitVecSort(w))

    # --- calls ------------------------------------------------------------------
    def call(self, I, st):
        name = I.x['callee']
        if name is None:
            fv = self.val(I.x['fv'], st)
            if not isinstance(fv, Fn): raise Unsupported('indirect call')
            name = fv.name
        args = [self.val(o, st) for o in I.ops if not (type(o).__name__ == 'Const' and o.kind == 'meta')]
        c = self.contracts.get(name)
        if c is None:
            from . import intrinsics
            c = intrinsics.lookup(name)
        if c is not None:
            return c(self, st, args, I, name)
        if self.m.func(name) is not None:
            r = self.call_fn(name, args, st)
            self.cur = I
            return r
        # unmodelled external: must be unreachable
        self.oblige('tool', 'unmodelled external function %s is not reached' % name, st, F)
        if I.ty.k == 'void': return None, st
        return self.fresh_ty(I.ty, 'ext'), st

    # --- loops --------------------------------------------------------------------
    def loop(self, F_, info, h, st, rets):
        from . import loops
        return loops.run(self, F_, info, h, st, rets)
