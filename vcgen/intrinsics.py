"""Semantics of LLVM intrinsics and of the handful of runtime functions reached; everything
else is an obligation 'not reached'."""
import z3, re
from .terms import *
from . import engine as E

TABLE = {}
def reg(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d
_cache = {}
def lookup(name):
    if name in TABLE: return TABLE[name]
    if name in _cache: return _cache[name]
    r = None
    if name.startswith('llvm.'):
        for k, f in PREFIX:
            if name.startswith(k): r = f; break
    _cache[name] = r
    return r

def nop(ex, st, a, I, name): return None, st
def life(ex, st, a, I, name):
    p = a[-1]
    if isinstance(p, E.Ptr) and len(p.alts) == 1 and p.alts[0][1]:
        st = st.copy(); st.mem[p.alts[0][1]] = {}
    return None, st
def norettrap(ex, st, a, I, name):
    ex.oblige('ub', 'no undefined operation (sanitizer trap) is reached', st, F); return None
@reg('__assert_fail')
def assert_fail(ex, st, a, I, name):
    msg = ''
    p = a[0]
    try:
        o = ex.objs[p.alts[0][1]]
        c = ex.cells(st, o); msg = bytes(cval(c[k][1]) for k in sorted(c)).split(b'\0')[0].decode()
    except Exception: pass
    ex.oblige('assert', 'assertion holds: ' + msg, st, F); return None
@reg('abort', '__clang_call_terminate', '_ZSt9terminatev')
def abort(ex, st, a, I, name):
    ex.oblige('abort', 'abort is not reached', st, F); return None
@reg('_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc','_ZSt20__throw_out_of_rangePKc')
def throws(ex, st, a, I, name):
    ex.stats['throws'] = ex.stats.get('throws', 0) + 1
    if ex.opts.get('nothrow', False): ex.oblige('throw', 'no exception (%s)' % name, st, F)
    return None
@reg('__cxa_guard_acquire')
def guard_acq(ex, st, a, I, name): return fresh('guard', 32), st
@reg('__cxa_guard_release')
def guard_rel(ex, st, a, I, name): return None, st
@reg('_ZNSt3_V216generic_categoryEv', '_ZNSt3_V215system_categoryEv')
def std_category(ex, st, a, I, name):      # an object of the standard library, never looked into
    if name not in ex.globs: ex.globs[name] = ex.new_obj('@' + name, 0)
    return E.ptr(ex.globs[name].id), st
@reg('__cxa_atexit')
def atexit(ex, st, a, I, name): return bv(0, 32), st
@reg('_Znwm', '_Znam', 'malloc')
def opnew(ex, st, a, I, name):
    n = E.pi_bv(a[0])
    o = ex.new_obj('heap', cval(n) if isc(n) else n); o.kind = 'cells'
    if not isc(n): st = st.copy(); st.mem[o.id] = ('arr', E.Arr.base('heap%d' % o.id))
    return E.ptr(o.id), st
@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm')
def opdel(ex, st, a, I, name): return None, st

def ints(f):
    def g(ex, st, a, I, name):
        def one(*x): return f(*[E.pi_bv(v) for v in x])
        if isinstance(a[0], list): return [one(*[v[i] for v in a]) for i in range(len(a[0]))], st
        return one(*a), st
    return g
def ovf(op):
    def g(ex, st, a, I, name):
        x, y = E.pi_bv(a[0]), E.pi_bv(a[1]); w = x.size()
        if op == 'uadd': r = x + y; o = z3.ULT(r, x)
        elif op == 'usub': r = x - y; o = z3.ULT(x, y)
        elif op == 'sadd': r = x + y; o = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
        elif op == 'ssub': r = x - y; o = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
        elif op == 'umul': r = x * y; o = z3.Not(z3.BVMulNoOverflow(x, y, False))
        else: r = x * y; o = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
        return (z3.simplify(r) if isc(x) and isc(y) else (add(x, y) if op.endswith('add') else sub(x, y) if op.endswith('sub') else r), z3.simplify(o)), st
    return g
def ctlz(x, _):
    w = x.size(); r = bv(w, w)
    for i in range(w): r = ite(NOT(eq(extract(i, i, x), bv(0, 1))), bv(w - 1 - i, w), r)
    return r
def cttz(x, _):
    w = x.size(); r = bv(w, w)
    for i in range(w - 1, -1, -1): r = ite(NOT(eq(extract(i, i, x), bv(0, 1))), bv(i, w), r)
    return r
def ctpop(x):
    w = x.size(); r = bv(0, w)
    for i in range(w): r = r + zext(extract(i, i, x), w)
    return r
def bswap(x): return concat([extract(8 * i + 7, 8 * i, x) for i in range(x.size() // 8)])
def fshl(a, b, c):
    w = a.size(); k = z3.URem(c, bv(w, w)) if not isc(c) else bv(cval(c) % w, w)
    if isc(k) and cval(k) == 0: return a
    return (a << k) | z3.LShR(b, bv(w, w) - k) if isc(k) else ite(k == 0, a, (a << k) | z3.LShR(b, bv(w, w) - k))
def fshr(a, b, c):
    w = a.size()
    if isc(c) and cval(c) % w == 0: return b
    k = bv(cval(c) % w, w) if isc(c) else z3.URem(c, bv(w, w))
    r = (a << (bv(w, w) - k)) | z3.LShR(b, k)
    return r if isc(k) else ite(k == 0, b, r)

def byte_reader(ex, st, p, n):
    """reader of the n bytes at pointer p, relative index -> byte (source as of now)"""
    rds = []
    for c, oid, off in p.alts:
        if oid == 0: continue
        o = ex.objs[oid]
        def rd(rel, o=o, off=off, mem=st.mem.get(oid)):
            s = E.State({}, {o.id: mem} if mem is not None else {}, {}, 1)
            class B8: k = 'int'; w = 8; size = 1; el = None
            return ex.load1(s, o, add(off, rel), B8, 1)
        rds.append((c, rd))
    def go(rel):
        r = None
        for c, f in rds:
            v = f(rel); r = v if r is None else ite(c, v, r)
        return r
    return go
def range_ok(ex, st, p, n, what):
    for c, oid, off in p.alts:
        nz = NOT(eq(n, bv(0, 64)))
        if oid == 0:
            ex.oblige('memory', '%s of a null range has length 0' % what, st, NOT(AND(c, nz))); continue
        o = ex.objs[oid]; s = o.sz()
        ok = AND(ule(n, s), ule(off, sub(s, n)))
        ex.oblige('memory', '%s of a byte range stays inside %s' % (what, o.name), st, IMP(AND(c, nz), ok))
def memcpy(ex, st, a, I, name):
    d, s, n = a[0], a[1], E.pi_bv(a[2])
    if n.size() < 64: n = zext(n, 64)
    st = st.copy()
    if isc(n):
        k = cval(n)
        if k == 0: return d, st
        if len(d.alts) == 1 and len(s.alts) == 1 and d.alts[0][1] and s.alts[0][1]:
            so, do = ex.objs[s.alts[0][1]], ex.objs[d.alts[0][1]]; sf, df = s.alts[0][2], d.alts[0][2]
            if so.kind == 'cells' and isc(sf) and isc(df) and not isinstance(st.mem.get(so.id), tuple) and not isinstance(st.mem.get(do.id), tuple):
                ex.bounds(st, so, sf, k, 'read'); ex.bounds(st, do, df, k, 'write')
                if do.const: ex.oblige('frame', 'read-only object is not written', st, F); return d, st
                src = ex.cells(st, so); b0 = cval(sf); f0 = cval(df)
                items = [(o, src[o]) for o in sorted(src) if o + src[o][0] > b0 and o < b0 + k]
                for o, (m, v) in items:
                    if o >= b0 and o + m <= b0 + k: ex.store1(st, do, bv(f0 + o - b0, 64), v, m)
                    else:
                        bs = ex.to_bytes(v, m)
                        for i in range(m):
                            if b0 <= o + i < b0 + k: ex.store1(st, do, bv(f0 + o + i - b0, 64), bs[i], 1)
                return d, st
        if k <= 16:
            class B8: k = 'int'; w = 8; size = 1; el = None
            range_ok(ex, st, s, n, 'read'); range_ok(ex, st, d, n, 'write')
            ex.dry += 1
            bs = [ex.load(st, E.Ptr([(c, o, add(f, bv(i, 64))) for c, o, f in s.alts]), B8) for i in range(k)]
            for i in range(k): ex.store(st, E.Ptr([(c, o, add(f, bv(i, 64))) for c, o, f in d.alts]), bs[i], B8)
            ex.dry -= 1
            return d, st
    range_ok(ex, st, s, n, 'read'); range_ok(ex, st, d, n, 'write')
    rd = byte_reader(ex, st, s, n)
    for c, oid, off in d.alts:
        if oid == 0: continue
        o = ex.objs[oid]
        if o.const: ex.oblige('frame', 'read-only object is not written', st, NOT(c)); continue
        if o.kind == 'blackhole': continue
        arr = ex.arr_of(st, o)
        new = arr.copy(off, n, rd)
        st.mem[oid] = ('arr', new if len(d.alts) == 1 else E.Arr('ite', c, new, arr))
    return d, st
def memset(ex, st, a, I, name):
    d, v, n = a[0], E.pi_bv(a[1]), E.pi_bv(a[2])
    v = trunc(v, 8)
    if n.size() < 64: n = zext(n, 64)
    st = st.copy()
    class B8: k = 'int'; w = 8; size = 1; el = None
    if isc(n) and cval(n) <= 256:
        for i in range(cval(n)): ex.store(st, E.Ptr([(c, o, add(f, bv(i, 64))) for c, o, f in d.alts]), v, B8)
        return d, st
    range_ok(ex, st, d, n, 'write')
    for c, oid, off in d.alts:
        if oid == 0: continue
        o = ex.objs[oid]; arr = ex.arr_of(st, o)
        if o.const: ex.oblige('frame', 'read-only object is not written', st, NOT(c)); continue
        new = arr.copy(off, n, lambda rel: v)
        st.mem[oid] = ('arr', new if len(d.alts) == 1 else E.Arr('ite', c, new, arr))
    return d, st
@reg('strlen')
def strlen(ex, st, a, I, name):
    p = a[0]; r = None
    for c, oid, off in p.alts:
        o = ex.objs.get(oid)
        if o is None or not isc(off): raise E.Unsupported('strlen of a symbolic string')
        cs = ex.cells(st, o); k = cval(off); i = k
        while True:
            b = ex.load_bytes(st, o, cs, i, 1, None)
            if not isc(b): raise E.Unsupported('strlen of a symbolic string')
            if cval(b) == 0: break
            i += 1
        v = bv(i - k, 64); r = v if r is None else ite(c, v, r)
    return r, st
@reg('memcmp', 'bcmp')
def memcmp(ex, st, a, I, name):
    n = E.pi_bv(a[2])
    if not isc(n) or cval(n) > 256: raise E.Unsupported('memcmp of symbolic length')
    range_ok(ex, st, a[0], n, 'read'); range_ok(ex, st, a[1], n, 'read')
    r0, r1 = byte_reader(ex, st, a[0], n), byte_reader(ex, st, a[1], n); r = bv(0, 32)
    for i in reversed(range(cval(n))):
        x, y = r0(bv(i, 64)), r1(bv(i, 64)); r = ite(eq(x, y), r, sub(zext(x, 32), zext(y, 32)))
    return r, st
TABLE['memcpy'] = TABLE['memmove'] = memcpy
TABLE['memset'] = memset
def is_fpclass(ex, st, a, I, name):
    b = a[0]; m = cval(a[1]); w = b.size(); f = ex.tofp(b); neg = NOT(eq(extract(w - 1, w - 1, b), bv(0, 1)))
    ew, mw = (8, 23) if w == 32 else (11, 52)
    ex_ = extract(w - 2, mw, b); mt = extract(mw - 1, 0, b); q = NOT(eq(extract(mw - 1, mw - 1, b), bv(0, 1)))
    emax, ez, mz = eq(ex_, bv(-1, ew)), eq(ex_, bv(0, ew)), eq(mt, bv(0, mw))
    cls = [AND(emax, NOT(mz), NOT(q)), AND(emax, NOT(mz), q), AND(neg, emax, mz), AND(neg, NOT(emax), NOT(ez)), AND(neg, ez, NOT(mz)), AND(neg, ez, mz),
           AND(NOT(neg), ez, mz), AND(NOT(neg), ez, NOT(mz)), AND(NOT(neg), NOT(emax), NOT(ez)), AND(NOT(neg), emax, mz)]
    return OR(*[cls[i] for i in range(10) if m >> i & 1]), st
def fabs(ex, st, a, I, name): w = a[0].size(); return a[0] & bv((1 << (w - 1)) - 1, w), st
def copysign(ex, st, a, I, name):
    w = a[0].size(); return (a[0] & bv((1 << (w - 1)) - 1, w)) | (a[1] & bv(1 << (w - 1), w)), st
@reg('ldexp', 'llvm.ldexp.f64.i32')
def ldexp(ex, st, a, I, name):
    """C standard: x * 2**e. Contract used: x is zero or normal and the result is normal (exact)"""
    x, e = a[0], E.pi_bv(a[1])
    xe = zext(extract(62, 52, x), 32); n = add(xe, e); z = eq(extract(62, 0, x), bv(0, 63))
    ex.oblige('tool', 'ldexp is called with a zero or normal argument and a normal result', st,
        OR(z, AND(NOT(eq(xe, bv(0, 32))), NOT(eq(xe, bv(2047, 32))), sle(bv(-4096, 32), e), sle(e, bv(4096, 32)), sle(bv(1, 32), n), sle(n, bv(2046, 32)))))
    return ite(z, x, concat([extract(63, 63, x), trunc(n, 11), extract(51, 0, x)])), st
def red(op):
    def g(ex, st, a, I, name):
        r = None
        for x in a[0]: r = x if r is None else (OR(r, x) if z3.is_bool(x) and op == 'or' else AND(r, x) if z3.is_bool(x) else r | x if op == 'or' else r & x if op == 'and' else add(r, x))
        return r, st
    return g
def assume(ex, st, a, I, name):
    return None, st
def movmsk(ex, st, a, I, name):
    return zext(concat([extract(7, 7, x) for x in reversed(a[0])]), 32), st
PREFIX = [('llvm.lifetime', life), ('llvm.dbg', nop), ('llvm.assume', assume), ('llvm.memcpy', memcpy), ('llvm.memmove', memcpy), ('llvm.memset', memset),
 ('llvm.experimental.noalias', nop), ('llvm.stacksave', lambda ex, st, a, I, n: (E.NULL, st)), ('llvm.stackrestore', nop),
 ('llvm.umin', ints(lambda a, b: ite(ult(a, b), a, b))), ('llvm.umax', ints(lambda a, b: ite(ult(a, b), b, a))),
 ('llvm.smin', ints(lambda a, b: ite(slt(a, b), a, b))), ('llvm.smax', ints(lambda a, b: ite(slt(a, b), b, a))),
 ('llvm.abs', ints(lambda a, _: ite(slt(a, bv(0, a.size())), sub(bv(0, a.size()), a), a))),
 ('llvm.usub.sat', ints(lambda a, b: ite(ult(a, b), bv(0, a.size()), sub(a, b)))), ('llvm.uadd.sat', ints(lambda a, b: ite(ult(a + b, a), bv(-1, a.size()), add(a, b)))),
 ('llvm.ctlz', ints(ctlz)), ('llvm.cttz', ints(cttz)), ('llvm.ctpop', ints(ctpop)), ('llvm.bswap', ints(bswap)), ('llvm.fshl', ints(fshl)), ('llvm.fshr', ints(fshr)),
 ('llvm.expect', lambda ex, st, a, I, n: (a[0], st)), ('llvm.is.constant', lambda ex, st, a, I, n: (F, st)),
 ('llvm.ubsantrap', norettrap), ('llvm.trap', norettrap), ('llvm.fabs', fabs), ('llvm.copysign', copysign), ('llvm.is.fpclass', is_fpclass),
 ('llvm.uadd.with', ovf('uadd')), ('llvm.usub.with', ovf('usub')), ('llvm.sadd.with', ovf('sadd')), ('llvm.ssub.with', ovf('ssub')), ('llvm.umul.with', ovf('umul')), ('llvm.smul.with', ovf('smul')),
 ('llvm.vector.reduce.or', red('or')), ('llvm.vector.reduce.and', red('and')), ('llvm.vector.reduce.add', red('add')),
 ('llvm.x86.sse2.pmovmskb', movmsk), ('llvm.donothing', nop), ('llvm.objectsize', lambda ex, st, a, I, n: (bv(-1, I.ty.w), st))]
