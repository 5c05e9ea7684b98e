"""Term construction: z3 bit-vectors with constant folding and a canonical linear form for sums."""
import z3
T, F = z3.BoolVal(True), z3.BoolVal(False)
_bv = {}
def bv(v, w):
    k = (v & ((1 << w) - 1), w); r = _bv.get(k)
    if r is None: r = _bv[k] = z3.BitVecVal(k[0], w)
    return r
_fresh = [0]
def fresh(name, w=64):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w) if w else z3.Bool('%s!%d' % (name, _fresh[0]))
def isc(e): return z3.is_bv_value(e)
def cval(e): return e.as_long()
def sval(e):
    v = e.as_long(); w = e.size()
    return v - (1 << w) if v >> (w - 1) else v

_lin = {}; _keep = []
def lin(e):
    """linear form: ({id:(atom,coef)}, const) modulo 2^w"""
    i = e.get_id(); r = _lin.get(i)
    if r is not None: return r
    w = e.size(); m = (1 << w) - 1
    if isc(e): r = ({}, cval(e))
    else:
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            d, c = {}, 0
            for a in e.children():
                da, ca = lin(a); c += ca
                for x, (t, co) in da.items():
                    o = d.get(x); d[x] = (t, (co + (o[1] if o else 0)) & m)
            r = ({x: v for x, v in d.items() if v[1]}, c & m)
        elif k == z3.Z3_OP_BSUB:
            a, b = e.children(); da, ca = lin(a); db, cb = lin(b); d = dict(da)
            for x, (t, co) in db.items():
                o = d.get(x); d[x] = (t, ((o[1] if o else 0) - co) & m)
            r = ({x: v for x, v in d.items() if v[1]}, (ca - cb) & m)
        elif k == z3.Z3_OP_BNEG:
            da, ca = lin(e.arg(0)); r = ({x: (t, (-c) & m) for x, (t, c) in da.items()}, (-ca) & m)
        elif k == z3.Z3_OP_BMUL and e.num_args() == 2 and (isc(e.arg(0)) or isc(e.arg(1))):
            c, a = (e.arg(0), e.arg(1)) if isc(e.arg(0)) else (e.arg(1), e.arg(0)); c = cval(c)
            da, ca = lin(a); r = ({x: (t, (co * c) & m) for x, (t, co) in da.items() if (co * c) & m}, (ca * c) & m)
        else: r = ({i: (e, 1)}, 0)
    _lin[i] = r; _keep.append(e)
    return r
def unlin(d, c, w):
    m = (1 << w) - 1; pos, neg = [], []
    for x in sorted(d):
        t, co = d[x]
        if co == 1: pos.append(t)
        elif co == m: neg.append(t)
        else: pos.append(bv(co, w) * t)
    r = None
    for t in pos: r = t if r is None else r + t
    if c:
        if r is None: r = bv(c, w)
        elif c >> (w - 1) and True: r = r - bv((-c) & m, w)
        else: r = r + bv(c, w)
    if r is None and neg:
        r = -neg[0]; neg = neg[1:]
    for t in neg: r = r - t
    return r if r is not None else bv(0, w)
_ul = {}
def norm(e):
    d, c = lin(e)
    k = (tuple(sorted((x, v[1]) for x, v in d.items())), c, e.size())
    r = _ul.get(k)
    if r is None:
        r = _ul[k] = unlin(d, c, e.size()); _keep.append(r); _lin[r.get_id()] = (d, c)
    return r
def add(a, b):
    if isc(a) and isc(b): return bv(cval(a) + cval(b), a.size())
    if isc(a) and cval(a) == 0: return b
    if isc(b) and cval(b) == 0: return a
    return norm(a + b)
def sub(a, b):
    if isc(a) and isc(b): return bv(cval(a) - cval(b), a.size())
    if isc(b) and cval(b) == 0: return a
    return norm(a - b)
def mulc(a, k):
    if isc(a): return bv(cval(a) * k, a.size())
    if k == 1: return a
    return norm(a * bv(k, a.size()))
def diffc(a, b):
    """a-b if it is a constant, else None (signed)"""
    da, ca = lin(a); db, cb = lin(b)
    if da.keys() != db.keys() or any(da[x][1] != db[x][1] for x in da): return None
    v = (ca - cb) & ((1 << a.size()) - 1)
    return v - (1 << a.size()) if v >> (a.size() - 1) else v
def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b or a.eq(b): return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return NOT(c)
        if z3.is_true(a): return OR(c, b)
        if z3.is_false(a): return AND(NOT(c), b)
        if z3.is_true(b): return OR(NOT(c), a)
        if z3.is_false(b): return AND(c, a)
    # ite(x < k1, v, ite(x < k2, v, r)) with k1 <= k2
    if z3.is_app_of(c, z3.Z3_OP_ULT) and z3.is_app_of(b, z3.Z3_OP_ITE) and z3.is_app_of(b.arg(0), z3.Z3_OP_ULT) and a.eq(b.arg(1)) and isc(c.arg(1)) and isc(b.arg(0).arg(1)) and c.arg(0).eq(b.arg(0).arg(0)) and cval(c.arg(1)) <= cval(b.arg(0).arg(1)): return b
    return z3.If(c, a, b)
_lc = {}
def leaves_const(e):
    """e is an if-then-else tree all of whose leaves are constants"""
    if isc(e): return True
    i = e.get_id(); r = _lc.get(i)
    if r is None:
        r = z3.is_app_of(e, z3.Z3_OP_ITE) and leaves_const(e.arg(1)) and leaves_const(e.arg(2))
        _lc[i] = r; _keep.append(e)
    return r
def leafmap(e, f, memo=None):
    if isc(e): return f(e)
    if memo is None: memo = {}
    r = memo.get(e.get_id())
    if r is None: r = memo[e.get_id()] = ite(e.arg(0), leafmap(e.arg(1), f, memo), leafmap(e.arg(2), f, memo))
    return r
def NOT(a):
    if z3.is_true(a): return F
    if z3.is_false(a): return T
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def AND(*xs):
    r = []
    for x in xs:
        if z3.is_false(x): return F
        if not z3.is_true(x): r.append(x)
    return T if not r else r[0] if len(r) == 1 else z3.And(*r)
def OR(*xs):
    r = []
    for x in xs:
        if z3.is_true(x): return T
        if not z3.is_false(x): r.append(x)
    return F if not r else r[0] if len(r) == 1 else z3.Or(*r)
def IMP(a, b): return OR(NOT(a), b)
def eq(a, b):
    if a.eq(b): return T
    if z3.is_bv(a):
        if isc(a) and isc(b): return z3.BoolVal(cval(a) == cval(b))
        d = diffc(a, b)
        if d is not None: return z3.BoolVal(d == 0)
        for x, y in ((a, b), (b, a)):
            if isc(y) and z3.is_app_of(x, z3.Z3_OP_ITE) and leaves_const(x): return leafmap(x, lambda l: z3.BoolVal(cval(l) == cval(y)))
        # (ite c k1 k2) == k
        for x, y in ((a, b), (b, a)):
            if isc(y) and z3.is_app_of(x, z3.Z3_OP_ITE):
                p, q = x.arg(1), x.arg(2)
                if isc(p) or isc(q):
                    ep, eq_ = eq(p, y), eq(q, y)
                    return ite(x.arg(0), ep, eq_)
            if isc(y) and z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
                w = x.arg(0).size()
                return eq(x.arg(0), bv(cval(y), w)) if cval(y) < (1 << w) else F
    return a == b
def zext(a, w):
    if a.size() == w: return a
    if isc(a): return bv(cval(a), w)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and leaves_const(a): return leafmap(a, lambda l: bv(cval(l), w))
    if z3.is_app_of(a, z3.Z3_OP_ITE) and (isc(a.arg(1)) or isc(a.arg(2))): return ite(a.arg(0), zext(a.arg(1), w), zext(a.arg(2), w))
    return z3.ZeroExt(w - a.size(), a)
def sext(a, w):
    if a.size() == w: return a
    if isc(a): return bv(sval(a), w)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and leaves_const(a): return leafmap(a, lambda l: bv(sval(l), w))
    if z3.is_app_of(a, z3.Z3_OP_ITE) and (isc(a.arg(1)) or isc(a.arg(2))): return ite(a.arg(0), sext(a.arg(1), w), sext(a.arg(2), w))
    return z3.SignExt(w - a.size(), a)
def extract(hi, lo, a):
    if lo == 0 and hi == a.size() - 1: return a
    if isc(a): return bv(cval(a) >> lo, hi - lo + 1)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and leaves_const(a): return leafmap(a, lambda l: bv(cval(l) >> lo, hi - lo + 1))
    if a.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and hi < a.arg(0).size(): return extract(hi, lo, a.arg(0))
    if a.decl().kind() == z3.Z3_OP_ZERO_EXT and lo >= a.arg(0).size(): return bv(0, hi - lo + 1)
    if a.decl().kind() == z3.Z3_OP_CONCAT:
        p = a.size()
        for c in a.children():
            p -= c.size()
            if lo >= p and hi < p + c.size(): return extract(hi - p, lo - p, c)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and (isc(a.arg(1)) or isc(a.arg(2))): return ite(a.arg(0), extract(hi, lo, a.arg(1)), extract(hi, lo, a.arg(2)))
    return z3.simplify(z3.Extract(hi, lo, a)) if a.num_args() <= 2 else z3.Extract(hi, lo, a)
def trunc(a, w): return extract(w - 1, 0, a)
def ult(a, b):
    if isc(a) and isc(b): return z3.BoolVal(cval(a) < cval(b))
    if isc(b) and not isc(a) and leaves_const(a): return leafmap(a, lambda l: z3.BoolVal(cval(l) < cval(b)))
    if isc(a) and not isc(b) and leaves_const(b): return leafmap(b, lambda l: z3.BoolVal(cval(a) < cval(l)))
    if a.eq(b): return F
    return z3.ULT(a, b)
def ule(a, b):
    if isc(a) and isc(b): return z3.BoolVal(cval(a) <= cval(b))
    if isc(b) and not isc(a) and leaves_const(a): return leafmap(a, lambda l: z3.BoolVal(cval(l) <= cval(b)))
    if isc(a) and not isc(b) and leaves_const(b): return leafmap(b, lambda l: z3.BoolVal(cval(a) <= cval(l)))
    if a.eq(b): return T
    return z3.ULE(a, b)
def slt(a, b):
    if isc(a) and isc(b): return z3.BoolVal(sval(a) < sval(b))
    if isc(b) and not isc(a) and leaves_const(a): return leafmap(a, lambda l: z3.BoolVal(sval(l) < sval(b)))
    if isc(a) and not isc(b) and leaves_const(b): return leafmap(b, lambda l: z3.BoolVal(sval(a) < sval(l)))
    if a.eq(b): return F
    return a < b
def sle(a, b):
    if isc(a) and isc(b): return z3.BoolVal(sval(a) <= sval(b))
    if isc(b) and not isc(a) and leaves_const(a): return leafmap(a, lambda l: z3.BoolVal(sval(l) <= sval(b)))
    if isc(a) and not isc(b) and leaves_const(b): return leafmap(b, lambda l: z3.BoolVal(sval(a) <= sval(l)))
    if a.eq(b): return T
    return a <= b
def concat(bs):
    """bytes, most significant first"""
    if all(isc(b) for b in bs):
        v = 0
        for b in bs: v = (v << b.size()) | cval(b)
        return bv(v, sum(b.size() for b in bs))
    return bs[0] if len(bs) == 1 else z3.Concat(*bs)
