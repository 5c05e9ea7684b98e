"""Loop rule: bounded loops with concrete control are unrolled completely; every other loop is
cut at its header, the modified locations are havocked and the largest inductive subset of a
set of candidate invariants is assumed there (Houdini). Candidates come from generic templates
over the header variables and from the specification of the root (ghost state)."""
import z3, time, os
from .terms import *
from . import engine as E
from .engine import State, Ptr, PI, Fn, Arr, Unsupported, same, ite_val, pi_bv

class Ctx:
    """what candidate generators see"""
    def __init__(self, ex, keys, entry, head, consts, info, h, F_):
        self.ex, self.keys, self.entry, self.head, self.consts, self.info, self.h, self.F = ex, keys, entry, head, consts, info, h, F_
    def ptr_keys(self, oid):
        return [k for k in self.keys if isinstance(self.head[k], (Ptr, PI)) and self.alt(self.head[k], oid) is not None]
    @staticmethod
    def alt(v, oid):
        p = v.p if isinstance(v, PI) else v
        if not isinstance(p, Ptr) or len(p.alts) != 1: return None
        return p.alts[0][2] if p.alts[0][1] == oid else None
    def pos(self, k, oid):
        """view -> offset term of pointer variable k inside object oid"""
        return lambda v: Ctx.alt(v[k], oid)
    def sums(self, oid):
        """loop-invariant pointer + integer variable"""
        out = []
        for i, c in enumerate(self.consts['ptrs'].get(oid, [])):
            for b in self.int_keys(64):
                if b[0] == 'r': out.append(('c%d+%s' % (i, kname(b)), lambda v, c=c, b=b: add(c, v[b])))
        return out
    def int_keys(self, w=None):
        return [k for k in self.keys if z3.is_expr(self.head[k]) and z3.is_bv(self.head[k]) and (w is None or self.head[k].size() == w)]
    def bool_keys(self):
        return [k for k in self.keys if z3.is_expr(self.head[k]) and z3.is_bool(self.head[k])]
    def arr_keys(self): return [k for k in self.keys if isinstance(self.head[k], Arr)]

def getv(st, key):
    if key[0] == 'r': return st.regs.get(key[1])
    if key[0] == 'g': return st.gh.get(key[1])
    if key[0] == 'a':
        m = st.mem.get(key[1]); return m[1] if isinstance(m, tuple) else None
    m = st.mem.get(key[1])
    if m is None or isinstance(m, tuple): return None
    c = m.get(key[2]); return c[1] if c and c[0] == key[3] else None

def objset(v, s):
    if isinstance(v, PI): v = v.p
    if isinstance(v, Ptr):
        for c, o, f in v.alts: s.add(o)

def havoc_val(ex, name, v, objs):
    if v is None: return None
    if isinstance(v, (Ptr, PI)):
        os_ = sorted(objs)
        if not os_: os_ = [a[1] for a in (v.p if isinstance(v, PI) else v).alts]
        if len(os_) == 1: p = Ptr([(T, os_[0], fresh(name) if os_[0] else bv(0, 64))])
        else:
            alts, rest = [], T
            for i, o in enumerate(os_):
                c = fresh(name + '.sel', 0) if i < len(os_) - 1 else T
                alts.append((AND(rest, c), o, fresh(name) if o else bv(0, 64))); rest = AND(rest, NOT(c))
            p = Ptr(alts)
        return PI(p) if isinstance(v, PI) else p
    if isinstance(v, Fn): return v
    if isinstance(v, Arr): return Arr.base(name)
    if isinstance(v, (list, tuple)): return type(v)(havoc_val(ex, name, x, objs) for x in v)
    if z3.is_bool(v): return fresh(name, 0)
    return fresh(name, v.size())

def run(ex, F_, info, h, st, rets):
    if ex.bdd.z(st.g) is None: return []
    exits = try_unroll(ex, F_, info, h, st, rets)
    if exits is not None: return exits
    K = ex.opts.get('sunroll', 9)
    if K and len(info['loops'][h]) <= ex.opts.get('sunroll_blocks', 4) and not any(x != h and x in info['loops'][h] for x in info['loops']):
        exits = sym_unroll(ex, F_, info, h, st, rets, K)
        if exits is not None: return exits
    return cut(ex, F_, info, h, st, rets)

def sym_unroll(ex, F_, info, h, st, rets, K):
    """complete unrolling of a short loop: the solver proves that iteration K+1 is infeasible"""
    s0 = snapshot(ex); nr = len(rets); cur = st.copy(); exits = []
    key = ('su', F_.name, h)
    if ex.nosu.get(key): return None
    for it in range(K + 1):
        back, ex_ = ex.region(F_, info, h, [(None, cur)], rets)
        exits += ex_
        back = [b for b in back if b.g != 0]
        if not back: break
        cur = ex.merge(back).copy()
        if it >= 1:
            r, _ = ex.check(list(ex.facts) + [ex.bdd.z(cur.g)], 5000)
            if r == z3.unsat: break
    else:
        truncate(ex, s0); del rets[nr:]; ex.nosu[key] = True
        return None
    ex.stats['unrolled'] = ex.stats.get('unrolled', 0) + 1
    return regroup(ex, exits)

def snapshot(ex): return (len(ex.facts), len(ex.obl))
def truncate(ex, s):
    for f in ex.facts[s[0]:]: ex.factset.discard(f.get_id())
    del ex.facts[s[0]:]; del ex.obl[s[1]:]

def exit_branch_const(ex, F_, info, h):
    """blocks of the loop with an edge leaving it"""
    L = info['loops'][h]
    return [b for b in L if any(s not in L for s in F_.byid[b].succ)]

def try_unroll(ex, F_, info, h, st, rets):
    L = info['loops'][h]
    const_phis = [p for p in F_.byid[h].phis if const_val(st.regs.get(p.id))]
    if not const_phis: return None
    s0 = snapshot(ex); ex.dry += 1
    try:
        r0 = []
        folded = run_watch(ex, F_, info, h, st, r0)
    finally:
        ex.dry -= 1; truncate(ex, s0)
    if not folded: return None
    if os.environ.get('VCUNROLL'): print('unroll', F_.name[:40], loop_line(F_, info, h), 'phis', len(const_phis))
    limit = ex.opts.get('unroll', 300)
    s0 = snapshot(ex); nr = len(rets)
    cur = st; exits = []
    for it in range(limit):
        folded, back, ex_ = watched(ex, F_, info, h, cur, rets)
        exits += ex_
        back = [b for b in back if b.g != 0]
        if not back: break
        cur = ex.merge(back).copy()
        if not folded or not any(const_val(cur.regs.get(p.id)) for p in const_phis):    # control is not concrete after all
            truncate(ex, s0); del rets[nr:]
            return None
    else:
        truncate(ex, s0); del rets[nr:]
        return None
    ex.stats['unrolled'] = ex.stats.get('unrolled', 0) + 1
    return regroup(ex, exits)
def const_val(v):
    if v is None: return False
    if z3.is_expr(v): return isc(v) if z3.is_bv(v) else (z3.is_true(v) or z3.is_false(v))
    if isinstance(v, Ptr): return len(v.alts) == 1 and isc(v.alts[0][2])
    if isinstance(v, PI): return const_val(v.p)
    return False
def run_watch(ex, F_, info, h, st, rets):
    """does some exit test of the first iteration fold to a constant?"""
    return watched(ex, F_, info, h, st.copy(), rets)[0]
def watched(ex, F_, info, h, st, rets):
    """one iteration; (some exit test folded to a constant, back edges, exits)"""
    L = info['loops'][h]; taken = {}
    ov = ex.edge; prev = ex.__dict__.get('edge')
    def edge(F2, inf2, src, tgt, s, cond):
        if F2 is F_ and src in L and info['inner'].get(src) == h and len(F_.byid[src].succ) > 1: taken.setdefault(src, []).append((tgt, cond))
        return ov(F2, inf2, src, tgt, s, cond)
    ex.edge = edge
    try: back, exits = ex.region(F_, info, h, [(None, st)], rets)
    finally:
        if prev is None: ex.__dict__.pop('edge', None)
        else: ex.edge = prev
    f = not [b for b in back if b.g]
    for src, l in taken.items():
        if any(s not in L for s in F_.byid[src].succ) and any(c in (0, 1) for _, c in l): f = True
    return f, back, exits

def regroup(ex, exits):
    by = {}
    for tgt, s in exits: by.setdefault(tgt, []).append(s)
    return [(t, ex.merge(ss)) for t, ss in by.items()]

def cut(ex, F_, info, h, st, rets):
    # 1. modified locations
    hdr = F_.byid[h]
    keys = [('r', p.id) for p in hdr.phis]
    mod = set(); objs = {}
    for k in keys: objs.setdefault(k, set()); objset(getv(st, k), objs[k])
    s0 = snapshot(ex); ex.dry += 1
    try:
        for rnd in range(12):
            head = make_head(ex, st, keys + sorted(mod, key=repr), objs)
            back, _ = ex.region(F_, info, h, [(None, head)], [])
            new = False
            for b in back:
                for k in keys + sorted(mod, key=repr):
                    n = len(objs.setdefault(k, set())); objset(getv(b, k), objs[k]); objset(getv(st, k), objs[k])
                    if len(objs[k]) != n: new = True
                for o, m in b.mem.items():
                    w = head.mem.get(o)
                    if m is w or ex.objs[o].const: continue
                    if isinstance(m, tuple) or isinstance(w, tuple):
                        if isinstance(m, tuple) and isinstance(w, tuple) and m[1] is w[1]: continue
                        if ('a', o) not in mod: mod = {k for k in mod if k[1] != o or k[0] == 'g'} | {('a', o)}; new = True
                        continue
                    if w is None: continue    # object born in the loop, or first touched there
                    for off in set(m) | set(w):
                        x, y = m.get(off), w.get(off)
                        if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1]): continue
                        if x is None and y is not None or x is not None and y is None or x[0] != y[0]:
                            key = ('u', o, off, (x or y)[0])          # layout change: uninitialised at the header
                            if y is not None: key = ('u', o, off, y[0])
                            elif y is None: continue                  # only written inside: dead at header unless read (then uninit)
                        else: key = ('m', o, off, x[0])
                        if key not in mod: mod.add(key); new = True
                for n, v in b.gh.items():
                    w = head.gh.get(n)
                    if w is None or same(v, w): continue
                    if ('g', n) not in mod: mod.add(('g', n)); new = True
            # pointer variables may range over several objects
            if not new: break
        else: raise Unsupported('loop modification set does not stabilise')
    finally:
        ex.dry -= 1; truncate(ex, s0)
    allk = keys + sorted(mod, key=repr)
    if ex.dry:
        head = make_head(ex, st, allk, objs)
        tmp = []
        back, exits = ex.region(F_, info, h, [(None, head)], tmp)
        rets.extend(tmp)
        return regroup(ex, exits)
    # 2. candidates
    head = make_head(ex, st, allk, objs)
    vk = [k for k in allk if k[0] != 'u']
    vhead = {k: getv(head, k) for k in vk}; ventry = {k: getv(st, k) for k in vk}
    vk = [k for k in vk if vhead[k] is not None]
    consts = collect_consts(ex, F_, info, h, st, allk)
    cx = Ctx(ex, vk, ventry, vhead, consts, info, h, F_); cx.st = st
    cands = generic(cx)
    for prov in ex.cand_providers: cands += prov(ex, cx)
    t0 = time.time()
    G = ex.bdd.z(st.g)
    def ev(f, view):
        try: r = f(view)
        except (AttributeError, TypeError): return None
        return r
    cs = []; seen = set()
    for name, f in cands:
        a = ev(f, vhead)
        if a is None or z3.is_true(a) or a.get_id() in seen: continue
        b = ev(f, ventry)
        if b is None or z3.is_false(b): continue
        seen.add(a.get_id()); cs.append([name, f, a, b])
    n0 = len(cs)
    # entry: keep those implied
    cs = houdini(ex, cs, G, [c[3] for c in cs], [], st.g)
    n1 = len(cs)
    # 3. induction
    nested = any(x != h and x in info['loops'][h] for x in info['loops']) or True
    s1 = snapshot(ex); nr = len(rets)
    rounds = 0
    while True:
        rounds += 1
        truncate(ex, s1); del rets[nr:]
        ids = []
        for c in cs: ex.fact(IMP(G, c[2]))
        nb = len(ex.facts)
        hd = head.copy()
        back, exits = ex.region(F_, info, h, [(None, hd)], rets)
        back = [b for b in back if b.g]
        before = len(cs)
        for b in back:
            vb = {k: getv(b, k) for k in vk}
            cl, keep = [], []
            for c in cs:
                e = ev(c[1], vb)
                if e is None: continue
                keep.append(c); cl.append(e)
            cs = keep
            cs = houdini(ex, cs, ex.bdd.z(b.g), cl, [], b.g)
            if len(cs) < before and len(back) > 1: pass
        if len(cs) == before: break
        # the dropped ones were assumed: repeat with the smaller set
    ex.loops_done.append({'fn': F_.name, 'line': loop_line(F_, info, h), 'cands': n0, 'entry': n1, 'inv': [c[0] for c in cs], 'rounds': rounds, 't': round(time.time() - t0, 2)})
    ex.log('loop', ex.loops_done[-1]['line'], 'vars', len(vk), 'cands', n0, n1, 'inv', len(cs), [c[0] for c in cs] if ex.opts.get('hverbose') else '', 'rounds', rounds, 't', ex.loops_done[-1]['t'])
    ex.stats['cuts'] = ex.stats.get('cuts', 0) + 1
    ex.stats['inv_obl'] = ex.stats.get('inv_obl', 0) + len(cs) * (1 + len(back))
    return regroup(ex, exits)

def loop_line(F_, info, h):
    for i in F_.byid[h].insts:
        if i.line: return '%s:%d' % (i.file.split('/src/')[-1], i.line)
    return '?'

def make_head(ex, st, keys, objs):
    s = st.copy()
    for k in keys:
        nm = 'h'
        if k[0] == 'r':
            v = st.regs.get(k[1])
            if v is not None: s.regs[k[1]] = havoc_val(ex, nm, v, objs.get(k, ()))
        elif k[0] == 'g': s.gh[k[1]] = havoc_val(ex, 'hg_' + k[1], st.gh[k[1]], ())
        elif k[0] == 'a':
            s.mem[k[1]] = ('arr', Arr.base('hm%d' % k[1]))
        elif k[0] == 'm':
            c = s.mem.get(k[1])
            if c is None or isinstance(c, tuple): continue
            c = dict(c); n, v = c[k[2]]; c[k[2]] = (n, havoc_val(ex, 'hm', v, objs.get(k, ()))); s.mem[k[1]] = c
        elif k[0] == 'u':
            c = s.mem.get(k[1])
            if c is None or isinstance(c, tuple): continue
            c = dict(c)
            for off in [o for o in c if o < k[2] + k[3] and o + c[o][0] > k[2]]: del c[off]
            s.mem[k[1]] = c
    return s

def collect_consts(ex, F_, info, h, st, modkeys):
    """loop-invariant pointers/integers visible at the header"""
    mods = {k[1] for k in modkeys if k[0] == 'r'}
    ptrs, ints = {}, []
    def addp(v):
        p = v.p if isinstance(v, PI) else v
        if isinstance(p, Ptr):
            for c, o, f in p.alts:
                if o and len(p.alts) == 1: ptrs.setdefault(o, {})[f.get_id()] = f
    for r, v in st.regs.items():
        if r in mods or v is None: continue
        addp(v)
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64 and not isc(v): ints.append(v)
    mk = {(k[1], k[2]) for k in modkeys if k[0] == 'm'}
    for o, m in st.mem.items():
        if isinstance(m, tuple) or ex.objs[o].const: continue
        if len(m) > 64: continue
        for off, (n, v) in m.items():
            if (o, off) not in mk: addp(v)
    return {'ptrs': {o: list(d.values()) for o, d in ptrs.items()}, 'ints': ints}

def houdini(ex, cs, G, claims, extra, node=None):
    """largest subset of claims valid under facts & G (entries dropped on counterexample)"""
    live = list(range(len(cs)))
    if node is not None and node > 1:
        from . import split
        cu = split.cubes(ex.bdd, node, ex.opts.get('cubes', 300))
        if cu and len(cu) > 1:
            def one(q, live=live):
                if not [i for i in live if not z3.is_true(claims[i])]: return live
                r, _ = ex.check(list(ex.facts) + extra + q, 10000)
                if r == z3.unsat: return live
                return houdini1(ex, cs, list(ex.facts) + extra + q, claims, live)
            from . import par
            if par.TOKENS is None or len(cu) < 3:
                for q in cu: live = one(q, live)
            else:
                k = min(8, len(cu)); lists = [cu[j::k] for j in range(k)]
                def some(qs):
                    l = live
                    for q in qs: l = one(q, l)
                    return l
                for l in par.pmap(some, lists): live = [i for i in live if l is not None and i in set(l)]
            return [cs[i] for i in live]
    live = houdini1(ex, cs, list(ex.facts) + extra + [G], claims, live)
    return [cs[i] for i in live]
def houdini1(ex, cs, base, claims, live):
    from . import split
    def drop(bad, why):
        if ex.opts.get('hverbose') or why == 'unknown': ex.log('   drop', why, [cs[i][0] for i in bad])
    return split.survivors(ex, base, {i: claims[i] for i in live}, live, drop, ex.opts.get('hquick', 20000), ex.opts.get('htimeout', 10000))

def kname(k):
    return '%s%s' % (k[0], '.'.join(str(x % 100000 if isinstance(x, int) and x > 100000 else x) for x in k[1:]))

def generic(cx):
    ex = cx.ex; out = []
    def A(n, f): out.append((n, f))
    # pointer variables: order relations inside their object
    byobj = {}
    for k in cx.keys:
        v = cx.head[k]; p = v.p if isinstance(v, PI) else v
        if isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1]: byobj.setdefault(p.alts[0][1], []).append(k)
    for o, ks in byobj.items():
        sz = ex.objs[o].sz()
        cps = [c for c in cx.consts['ptrs'].get(o, [])][:6]
        for k in ks:
            P = cx.pos(k, o); n = kname(k)
            A('%s<=size' % n, lambda v, P=P: ule(P(v), sz))
            for c in cps:
                if isc(c) and cval(c) == 0: continue
                A('%s<=c' % n, lambda v, P=P, c=c: ule(P(v), c))
                A('%s>=c' % n, lambda v, P=P, c=c: ule(c, P(v)))
                A('%s!=c' % n, lambda v, P=P, c=c: NOT(eq(P(v), c)))
            en = Ctx.alt(cx.entry[k], o) if cx.entry[k] is not None else None
            if en is not None and not any(en.eq(c) for c in cps): A('%s>=entry' % n, lambda v, P=P, en=en: ule(en, P(v)))
            if ex.opts.get('sums'):
                for m, Q in cx.sums(o): A('%s<=%s' % (n, m), lambda v, P=P, Q=Q: ule(P(v), Q(v))); A('%s>=%s' % (n, m), lambda v, P=P, Q=Q: ule(Q(v), P(v)))
            for k2 in ks:
                if k2 == k: continue
                Q = cx.pos(k2, o)
                A('%s<=%s' % (n, kname(k2)), lambda v, P=P, Q=Q: ule(P(v), Q(v)))
    # integers
    for k in cx.int_keys():
        w = cx.head[k].size(); n = kname(k); en = cx.entry[k]
        g = lambda v, k=k: v[k]
        if en is None or not z3.is_expr(en) or not z3.is_bv(en): continue
        A('%s<=entry' % n, lambda v, g=g, en=en: ule(g(v), en)); A('%s>=entry' % n, lambda v, g=g, en=en: ule(en, g(v)))
        A('%s s<=entry' % n, lambda v, g=g, en=en: sle(g(v), en)); A('%s s>=entry' % n, lambda v, g=g, en=en: sle(en, g(v)))
        for c in (1, 2, 3, 4, 8, 16):
            A('%s<=%d' % (n, c), lambda v, g=g, c=c, w=w: ule(g(v), bv(c, w)))
        A('%s!=0' % n, lambda v, g=g, w=w: NOT(eq(g(v), bv(0, w))))
        if w == 64:
            for c in cx.consts['ints'][:8]:
                A('%s<=i' % n, lambda v, g=g, c=c: ule(g(v), c))
    # counters of different widths that agree
    i64 = cx.int_keys(64)
    for k in cx.int_keys(32):
        for k2 in i64:
            if k[0] == 'r' and k2[0] == 'r' and z3.is_expr(cx.entry[k]) and z3.is_expr(cx.entry[k2]) and isc(cx.entry[k]) and isc(cx.entry[k2]) and cval(cx.entry[k]) == cval(cx.entry[k2]):
                A('%s=%s' % (kname(k), kname(k2)), lambda v, k=k, k2=k2: eq(zext(v[k], 64), v[k2]))
    # linear relations between 64-bit variables: x+y and x-y keep their entry value
    lins = []
    for k in cx.int_keys(64): lins.append((kname(k), lambda v, k=k: v[k], cx.entry[k]))
    for o, ks in byobj.items():
        for k in ks: lins.append((kname(k), cx.pos(k, o), Ctx.alt(cx.entry[k], o) if cx.entry[k] is not None else None))
    for i in range(len(lins)):
        for j in range(i + 1, len(lins)):
            (n1, f1, e1), (n2, f2, e2) = lins[i], lins[j]
            if e1 is None or e2 is None or not z3.is_expr(e1) or not z3.is_expr(e2): continue
            A('%s+%s=c' % (n1, n2), lambda v, f1=f1, f2=f2, c=add(e1, e2): eq(add(f1(v), f2(v)), c))
            A('%s-%s=c' % (n1, n2), lambda v, f1=f1, f2=f2, c=sub(e1, e2): eq(sub(f1(v), f2(v)), c))
    for k in cx.bool_keys():
        A('%s' % kname(k), lambda v, k=k: v[k]); A('!%s' % kname(k), lambda v, k=k: NOT(v[k]))
    return out
