"""Case splitting. A query the solver does not answer quickly is split on a branch condition that
occurs in its terms (or on the paths of its guard); both cases are simplified and decided
separately, so the cases always cover the query."""
import z3, time
from .terms import *
def cubes(bdd, g, limit):
    """disjoint cubes [(literal list)] covering g, or None when there are more than limit"""
    out = []; stack = [(g, [])]
    while stack:
        n, lits = stack.pop()
        if n == 0: continue
        if n == 1:
            out.append(lits)
            if len(out) + len(stack) > limit: return None
            continue
        v, lo, hi = bdd.nodes[n]; a = bdd.atoms[v]
        stack.append((lo, lits + [NOT(a)])); stack.append((hi, lits + [a]))
        if len(out) + len(stack) > limit: return None
    return out

BOOL = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES}
_hasite = {}; _keep2 = []
def has_ite(e):
    i = e.get_id(); r = _hasite.get(i)
    if r is None:
        r = z3.is_app_of(e, z3.Z3_OP_ITE) or any(has_ite(c) for c in e.children())
        _hasite[i] = r; _keep2.append(e)
    return r
def pick(fs, avoid):
    """the condition that guards the most if-then-else terms (conditions without such terms inside first)"""
    seen = set(); cnt = {}; stack = list(fs); conds = {}
    while stack:
        e = stack.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_bv(e):
            c = e.arg(0); n = conds.get(c.get_id(), (c, 0))[1]; conds[c.get_id()] = (c, n + 1)
        stack.extend(e.children())
    for c, n in conds.values():
        sub, st = set(), [c]
        while st:
            e = st.pop(); i = e.get_id()
            if i in sub: continue
            sub.add(i); k = e.decl().kind()
            if k in BOOL or (k == z3.Z3_OP_ITE and z3.is_bool(e)) or (k == z3.Z3_OP_EQ and z3.is_bool(e.arg(0))): st.extend(e.children())
            elif not z3.is_true(e) and not z3.is_false(e): cnt[i] = (e, cnt.get(i, (e, 0))[1] + n)
    best = None
    for i, (e, n) in cnt.items():
        if i in avoid: continue
        k = (not has_ite(e), n)
        if best is None or k > best[1]: best = (e, k)
    return best and best[0]
def case(fs, atom, val):
    F_ = Fold({atom.get_id(): val})
    return clean([F_.f(f) for f in fs])
# Splitting along paths: branch atoms in program order. Assigning an atom only folds the boolean
# and if-then-else structure, so the remaining atoms keep their identity.
class Fold:
    def __init__(self, asg): self.asg, self.c, self.keep = asg, {}, []
    def f(self, e):
        i = e.get_id()
        r = self.asg.get(i)
        if r is not None: return r
        r = self.c.get(i)
        if r is not None: return r
        n = e.num_args()
        if n == 0: r = e
        else:
            k = e.decl().kind()
            if k == z3.Z3_OP_ITE:
                c = self.f(e.arg(0))
                if z3.is_true(c): r = self.f(e.arg(1))
                elif z3.is_false(c): r = self.f(e.arg(2))
                else:
                    x, y = self.f(e.arg(1)), self.f(e.arg(2))
                    r = e if c.eq(e.arg(0)) and x.eq(e.arg(1)) and y.eq(e.arg(2)) else ite(c, x, y)
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                stop = z3.is_false if k == z3.Z3_OP_AND else z3.is_true
                out = []; ch = False; r = None
                for x in e.children():
                    y = self.f(x)
                    if stop(y): r = y; break
                    if not y.eq(x): ch = True
                    out.append(y)
                if r is None: r = (AND(*out) if k == z3.Z3_OP_AND else OR(*out)) if ch else e
            else:
                cs = e.children(); out = [self.f(x) for x in cs]
                if all(x.eq(y) for x, y in zip(cs, out)): r = e
                elif k == z3.Z3_OP_NOT: r = NOT(out[0])
                elif k == z3.Z3_OP_IMPLIES: r = OR(NOT(out[0]), out[1])
                elif k == z3.Z3_OP_EQ:
                    x, y = out
                    if z3.is_bool(x):
                        r = y if z3.is_true(x) else x if z3.is_true(y) else NOT(y) if z3.is_false(x) else NOT(x) if z3.is_false(y) else x == y
                    else: r = eq(x, y)
                else: r = e.decl()(*out)
        self.c[i] = r; self.keep.append((e, r)); return r
def fold(es, asg):
    F_ = Fold(asg); return [F_.f(e) for e in es]
def first_atom(bdd, fs):
    """the earliest branch atom that occurs in fs"""
    seen = set(); stack = list(fs); best = None; idx = bdd.idx
    while stack:
        e = stack.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        v = idx.get(i)
        if v is not None and e.num_args() and (best is None or v < best): best = v
        elif v is not None and (best is None or v < best): best = v
        stack.extend(e.children())
    return best
def clean(fs):
    out = []
    for f in fs:
        if z3.is_false(f): return None
        if not z3.is_true(f): out.append(f)
    return out
class Budget:
    def __init__(self, n, secs): self.n, self.t = n, time.time() + secs
    def take(self):
        self.n -= 1; return self.n >= 0 and time.time() < self.t
def refute_paths(ex, fs, quick, final, bud, inner=None):
    """like refute, along paths"""
    stack = [(fs, [])]
    while stack:
        cur, lits = stack.pop()
        if not bud.take(): return 'unknown', None
        r, s = ex.check(cur + lits, quick)
        if r == z3.unsat: continue
        if r == z3.sat: return 'sat', s.model()
        v = first_atom(ex.bdd, cur)
        if v is None:
            r, m = refute(ex, cur + lits, quick, final, 6)
            if r != 'unsat': return r, m
            continue
        a = ex.bdd.atoms[v]
        for lit, val in ((a, T), (NOT(a), F)):
            c = clean(fold(cur, {a.get_id(): val}))
            if c is not None: stack.append((c, lits + [lit]))
    return 'unsat', None
def survivors_paths(ex, base, claims, live, drop, quick, final, bud):
    stack = [(base, [], {i: claims[i] for i in live})]
    while stack:
        cur, lits, cl = stack.pop()
        while True:
            todo = [i for i in live if i in cl and not z3.is_true(cl[i])]
            if not todo: break
            r, s = ex.check(cur + lits + [z3.Or([NOT(cl[i]) for i in todo])], quick) if bud.take() else (z3.unknown, None)
            if r == z3.unsat: break
            if r == z3.sat:
                m = s.model()
                bad = [i for i in todo if z3.is_false(m.eval(cl[i], model_completion=True))] or todo[:1]
                drop(bad, 'false'); live = [i for i in live if i not in set(bad)]
                continue
            v = first_atom(ex.bdd, cur + [cl[i] for i in todo])
            if v is None or bud.n < 0:
                live2 = survivors(ex, cur + lits, {i: cl[i] for i in todo}, todo, drop, quick, final, 6 if bud.n >= 0 else 0)
                live = [i for i in live if i not in todo or i in live2]
                break
            a = ex.bdd.atoms[v]
            for lit, val in ((a, T), (NOT(a), F)):
                F_ = Fold({a.get_id(): val})
                c = clean([F_.f(x) for x in cur])
                if c is not None: stack.append((c, lits + [lit], {i: F_.f(cl[i]) for i in todo}))
            break
    return live
DEADLINE = [1e18]
def refute(ex, fs, quick=1500, final=20000, depth=10, avoid=None):
    """('unsat' | 'sat' | 'unknown', model)"""
    r, s = ex.check(fs, quick if depth else final)
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', s.model()
    if not depth or time.time() > DEADLINE[0]: return 'unknown', None
    a = pick(fs, avoid or ())
    if a is None:
        r, s = ex.check(fs, final)
        return str(r), s.model() if r == z3.sat else None
    av = set(avoid or ()) | {a.get_id()}
    unk = False
    for lit, val in ((a, T), (NOT(a), F)):
        c = case(fs, a, val)
        if c is None: continue
        r, m = refute(ex, c + [lit], quick, final, depth - 1, av)
        if r == 'sat': return r, m
        if r == 'unknown': unk = True; break
    return ('unknown' if unk else 'unsat'), None
def survivors(ex, base, claims, live, drop, quick=1500, final=10000, depth=10, avoid=()):
    """subset of live whose claims hold under base; claims: {i: formula} (simplified in each case)"""
    while True:
        todo = [i for i in live if not z3.is_true(claims[i])]
        if not todo: return live
        r, s = ex.check(base + [z3.Or([NOT(claims[i]) for i in todo])], quick if depth else final)
        if r == z3.unsat: return live
        if r == z3.sat:
            m = s.model()
            bad = [i for i in todo if z3.is_false(m.eval(claims[i], model_completion=True))] or todo[:1]
            drop(bad, 'false'); live = [i for i in live if i not in set(bad)]
            continue
        a = pick(base + [claims[i] for i in todo], avoid) if depth else None
        if a is None:
            if len(todo) == 1: drop(todo, 'unknown'); return [i for i in live if i not in todo]
            bad = []
            for i in todo:
                r1, _ = ex.check(base + [NOT(claims[i])], final)
                if r1 != z3.unsat: bad.append(i)
            drop(bad, 'unknown'); return [i for i in live if i not in set(bad)]
        av = set(avoid) | {a.get_id()}
        for lit, val in ((a, T), (NOT(a), F)):
            c = case(base, a, val)
            if c is None: continue
            cl = {}
            for i in live:
                cl[i] = Fold({a.get_id(): val}).f(claims[i])
            live = survivors(ex, c + [lit], cl, live, drop, quick, final, depth - 1, av)
        return live
