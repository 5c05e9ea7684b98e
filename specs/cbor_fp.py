"""CBOR floating point, booleans and null (RFC 8949 section 3.3)."""
import z3
from vcgen.terms import *
from vcgen.task import *
from .cbor_int import item_head, skip_tag

def bebytes(v):
    n = v.size() // 8
    return [extract(8 * (n - 1 - i) + 7, 8 * (n - 1 - i), v) for i in range(n)]
def fp_bits(v): return [bv({32: 0xfa, 64: 0xfb}[v.size()], 8)] + bebytes(v)
def write_b(name, w, enc):
    """enc(value) -> list of bytes"""
    def spec(r):
        rec = r.record(); a = [r.value('v', w)] if w else []
        b, e, o = r.buffer(); bs = enc(*a); n = len(bs)
        r.call(rec, *a, b, e)
        r.post('succeeds exactly when the encoding fits', r.ok == ule(bv(n, 64), o.n))
        r.post('end is right after the encoding', eq(r.end, bv(n, 64)), r.ok)
        for i, x in enumerate(bs): r.post('byte %d is the byte of the encoding' % i, eq(r.byte(o, bv(i, 64)), x), r.ok)
        r.post('a failed write reports output_failure', eq(r.ec, bv(1, 32)), NOT(r.ok))
        j = r.univ('j')
        r.post('bytes after the encoding are not touched', eq(r.byte(o, j), o.init.read(j)), AND(ult(j, o.n), ule(bv(n, 64), j)))
    return spec
def write_s(w, enc, kind='bool'):
    def spec(r):
        r.ghost_init(); rec = r.record(); a = [r.value('v', w)] if w else []
        bs = enc(*a); n = len(bs)
        r.call(rec, *a); g = r.st.gh
        if kind != 'none': r.post('succeeds exactly when the sink accepts everything', r.ok == NOT(g['ofail']))
        else: r.assume(NOT(g['ofail'])); r.post('succeeds', r.ok)
        r.post('writes the encoding', AND(*[IMP(eq(r.J, bv(i, 64)), eq(g['oJ'], x)) for i, x in enumerate(bs)]), AND(r.ok, ult(r.J, bv(n, 64))))
        r.post('writes exactly its length', eq(g['olen'], bv(n, 64)), r.ok)
    return spec
benc = lambda v: [ite(v, bv(0xf5, 8), bv(0xf4, 8))]
nenc = lambda: [bv(0xf6, 8)]

def half(h):
    """binary64 pattern of the value of a binary16 pattern"""
    s, e, m = extract(15, 15, h), extract(14, 10, h), extract(9, 0, h)
    r = concat([s, add(zext(e, 11), bv(1023 - 15, 11)), m, bv(0, 42)])
    sub_ = bv(0, 63); m63 = zext(m, 63)
    for k in range(10): sub_ = ite(eq(extract(k, k, m), bv(1, 1)), bv((1023 - 24 + k) << 52, 63) | ((m63 << bv(52 - k, 63)) & bv((1 << 52) - 1, 63)), sub_)
    r = ite(eq(e, bv(0, 5)), concat([s, sub_]), r)
    return ite(eq(e, bv(31, 5)), concat([s, bv(0x7ff, 11), m, bv(0, 42)]), r)
def isnan(b):
    w = b.size(); ew, mw = (8, 23) if w == 32 else (11, 52)
    return AND(eq(extract(w - 2, mw, b), bv(-1, ew)), NOT(eq(extract(mw - 1, 0, b), bv(0, mw))))
def read_fp(w, rewinds=True):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', w // 8); b, e, IN = r.input()
        r.call(rec, t, b, e); N = IN.n
        tok, p = skip_tag(IN, N)
        pr, mj, mn, arg, hl, good = item_head(IN, N, p)
        is_ = lambda m: eq(mj, bv(m, 8))
        mi = lambda k: eq(mn, bv(k, 8))
        neg = AND(is_(1), ule(arg, bv((1 << 63) - 1, 64)))
        flt = AND(is_(7), OR(mi(25), mi(26), mi(27)))
        valid = AND(tok, good, OR(is_(0), neg, flt))
        r.post('accepted exactly when it is a well-formed float or representable integer', valid == r.ok)
        r.post('exactly the item (and one optional tag) is consumed', eq(r.end, add(p, hl)), r.ok)
        tv = r.get(to, 0, w)
        for k, b_ in ((25, 16), (26, 32), (27, 64)):
            src = half(trunc(arg, 16)) if b_ == 16 else trunc(arg, b_)
            want = r.fpconv(src, w); hyp = AND(r.ok, eq(IN.fn(p), bv(0xe0 + k, 8)))
            r.post('the value of a %d-bit float is kept' % b_, eq(tv, want), AND(hyp, NOT(isnan(src))))
            r.post('a %d-bit NaN stays a NaN' % b_, isnan(tv), AND(hyp, isnan(src)))
        r.post('the value of a non-negative integer is kept', eq(tv, r.itofp(arg, False, w)), AND(r.ok, is_(0)))
        r.post('the value of a negative integer is kept', eq(tv, r.itofp(~arg, True, w)), AND(r.ok, is_(1)))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        if rewinds: r.post('a rejected item is not consumed', OR(eq(r.end, bv(0, 64)), AND(tok, eq(r.end, p))), NOT(r.ok))
    return spec
def read_simple(bool_, rewinds=True):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', 1 if bool_ else 8); b, e, IN = r.input()
        r.call(rec, t, b, e); N = IN.n; b0 = IN.fn(bv(0, 64)); pr = ult(bv(0, 64), N)
        if bool_:
            good = AND(pr, OR(eq(b0, bv(0xf4, 8)), eq(b0, bv(0xf5, 8))))
            r.post('the value is the one encoded', eq(r.get(to, 0, 8), ite(eq(b0, bv(0xf5, 8)), bv(1, 8), bv(0, 8))), r.ok)
        else:
            good = AND(pr, eq(b0, bv(0xf6, 8)))
        r.post('accepted exactly when it is an encoding of the type', r.ok == good)
        r.post('exactly the item is consumed', eq(r.end, bv(1, 64)), r.ok)
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        if rewinds: r.post('a rejected item is not consumed', eq(r.end, bv(0, 64)), NOT(r.ok))
    return spec
GEN = {'IN': [b'\xf9', b'\xfa', b'\xfb', b'\xf9\x00', b'\xf9\x7c', b'\xfa\x7f\x80', b'\xfb\x7f\xf0', b'\xf4', b'\xf5', b'\xf6', b'\xf7', b'\x3b', b'\x1b', b'\xc1', b'\xd8', b'\x00', b'\x01', b'\x7f', b'\x80', b'\xff', b'\x03']}
TASKS = []
for n, w, enc in (('f32', 32, fp_bits), ('f64', 64, fp_bits), ('bool', 1, benc), ('nil', 0, nenc)):
    TASKS.append(Task('cbor.fp.write.' + n, 'cbor_fp', 'wb_' + n, write_b(n, w, enc), ['P']))
    TASKS.append(Task('cbor.fp.write_sink.' + n, 'cbor_fp', 'ws_' + n, write_s(w, enc), ['P']))
TASKS.append(Task('cbor.fp.write_push.f64', 'cbor_fp', 'wp_f64', write_s(64, fp_bits, 'none'), ['P']))
TASKS.append(Task('cbor.fp.write_iter.f64', 'cbor_fp', 'wi_f64', write_s(64, fp_bits, 'none'), ['P']))
TASKS.append(Task('cbor.fp.write_stream.f32', 'cbor_fp', 'wo_f32', write_s(32, fp_bits, 'good'), ['P']))
for n, sp in (('f32', lambda rw: read_fp(32, rw)), ('f64', lambda rw: read_fp(64, rw)), ('bool', lambda rw: read_simple(True, rw)), ('nil', lambda rw: read_simple(False, rw))):
    for kind, pre, rw in (('read', 'rd_', True), ('read_char', 'rc_', True), ('read_forward', 'rf_', True), ('read_input', 'ri_', False)):
        TASKS.append(Task('cbor.fp.%s.%s' % (kind, n), 'cbor_fp', pre + n, sp(rw), ['P'], gen=GEN))
