"""Path guards as reduced ordered BDDs over branch conditions (canonical, so joins collapse)."""
import z3
class BDD:
    def __init__(self):
        self.atoms = []          # var index -> z3 Bool
        self.idx = {}            # z3 ast id -> var
        self.tab = {}            # (v,lo,hi) -> node id
        self.nodes = [None, None]  # 0 = False, 1 = True
        self.mand, self.mnot, self.mz, self.mres = {}, {}, {0: z3.BoolVal(False), 1: z3.BoolVal(True)}, {}
        self.keep = []
        self.mb = {}
    def mk(self, v, lo, hi):
        if lo == hi: return lo
        k = (v, lo, hi); n = self.tab.get(k)
        if n is None:
            n = len(self.nodes); self.nodes.append(k); self.tab[k] = n
        return n
    def var(self, e):
        i = e.get_id()
        v = self.idx.get(i)
        if v is None:
            v = len(self.atoms); self.atoms.append(e); self.idx[i] = v
        return self.mk(v, 0, 1)
    def NOT(self, a):
        if a < 2: return 1 - a
        r = self.mnot.get(a)
        if r is None:
            v, lo, hi = self.nodes[a]; r = self.mk(v, self.NOT(lo), self.NOT(hi)); self.mnot[a] = r; self.mnot[r] = a
        return r
    def AND(self, a, b):
        if a == 0 or b == 0: return 0
        if a == 1: return b
        if b == 1 or a == b: return a
        if a > b: a, b = b, a
        k = (a, b); r = self.mand.get(k)
        if r is None:
            va, la, ha = self.nodes[a]; vb, lb, hb = self.nodes[b]
            if va == vb: r = self.mk(va, self.AND(la, lb), self.AND(ha, hb))
            elif va < vb: r = self.mk(va, self.AND(la, b), self.AND(ha, b))
            else: r = self.mk(vb, self.AND(a, lb), self.AND(a, hb))
            self.mand[k] = r
        return r
    def OR(self, a, b): return self.NOT(self.AND(self.NOT(a), self.NOT(b)))
    def restrict(self, f, c):
        """Simplify f using care set c (Coudert-Madre): equal to f wherever c holds."""
        if c == 0: return 0
        if c == 1 or f < 2: return f
        k = (f, c); r = self.mres.get(k)
        if r is None:
            vf, lf, hf = self.nodes[f]; vc, lc, hc = self.nodes[c]
            if vc < vf: r = self.restrict(f, self.OR(lc, hc))
            else:
                if vc == vf: a, b = lc, hc
                else: a = b = c
                if a == 0: r = self.restrict(hf, b)
                elif b == 0: r = self.restrict(lf, a)
                else: r = self.mk(vf, self.restrict(lf, a), self.restrict(hf, b))
            self.mres[k] = r
        return r
    def of(self, e):
        """BDD of a z3 Bool expression (And/Or/Not/ite structure is decomposed)."""
        i = e.get_id(); r = self.mb.get(i)
        if r is not None: return r
        if z3.is_true(e): r = 1
        elif z3.is_false(e): r = 0
        elif z3.is_not(e): r = self.NOT(self.of(e.arg(0)))
        elif z3.is_and(e):
            r = 1
            for c in e.children(): r = self.AND(r, self.of(c))
        elif z3.is_or(e):
            r = 0
            for c in e.children(): r = self.OR(r, self.of(c))
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            c, a, b = (self.of(x) for x in e.children())
            r = self.OR(self.AND(c, a), self.AND(self.NOT(c), b))
        else: r = self.var(e)
        self.mb[i] = r; self.keep.append(e)
        return r
    def z(self, n):
        r = self.mz.get(n)
        if r is None:
            v, lo, hi = self.nodes[n]; x = self.atoms[v]
            zl, zh = self.z(lo), self.z(hi)
            if lo == 0 and hi == 1: r = x
            elif lo == 1 and hi == 0: r = z3.Not(x)
            elif lo == 0: r = z3.And(x, zh)
            elif hi == 0: r = z3.And(z3.Not(x), zl)
            elif lo == 1: r = z3.Or(z3.Not(x), zh)
            elif hi == 1: r = z3.Or(x, zl)
            else: r = z3.If(x, zh, zl)
            self.mz[n] = r
        return r
