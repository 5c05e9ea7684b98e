"""CBOR integers: shortest-form encoding (RFC 8949 section 3, 4.2.1) and value-preserving decoding."""
import z3
from vcgen.terms import *
from vcgen.task import *

INTS = [('u8', 8, 0), ('i8', 8, 1), ('u16', 16, 0), ('i16', 16, 1), ('u32', 32, 0), ('i32', 32, 1), ('u64', 64, 0), ('i64', 64, 1),
        ('ull', 64, 0), ('ll', 64, 1), ('ch', 8, 2), ('wc', 32, 2), ('c16', 16, 0), ('c32', 32, 0)]

def head_spec(major, v):
    """shortest head of (major, 64-bit argument): (length, [9 bytes])"""
    le = lambda k: ule(v, bv(k, 64))
    n = ite(le(23), bv(1, 64), ite(le(0xff), bv(2, 64), ite(le(0xffff), bv(3, 64), ite(le(0xffffffff), bv(5, 64), bv(9, 64)))))
    mj = major if not isinstance(major, int) else bv(major, 8)
    ib = mj | ite(le(23), trunc(v, 8), ite(le(0xff), bv(24, 8), ite(le(0xffff), bv(25, 8), ite(le(0xffffffff), bv(26, 8), bv(27, 8)))))
    bs = [ib]
    for i in range(1, 9):
        # byte i of the encoding = argument byte (n-1-i) from the least significant end
        sh = mulc(sub(sub(n, bv(1, 64)), bv(i, 64)), 8)
        bs.append(trunc(z3.LShR(v, sh), 8))
    return n, bs
def int_enc(v, w, s):
    """argument and major of an integer value; plain char and wchar_t are written as unsigned code units"""
    if s == 1:
        neg = slt(v, bv(0, w)); sv = sext(v, 64)
        return ite(neg, bv(0x20, 8), bv(0, 8)), ite(neg, ~sv, sv)
    return bv(0, 8), zext(v, 64)

def write_bounded(w, s):
    def spec(r):
        rec = r.record(); v = r.value('v', w, s != 0); b, e, o = r.buffer()
        major, arg = int_enc(v, w, s); n, bs = head_spec(major, arg)
        r.call(rec, v, b, e)
        fits = ule(n, o.n)
        r.post('succeeds exactly when the shortest encoding fits', r.ok == fits)
        r.post('end is right after the encoding', eq(r.end, n), r.ok)
        for i in range(9):
            r.post('byte %d is the byte of the shortest encoding' % i, eq(r.byte(o, bv(i, 64)), bs[i]), AND(r.ok, ult(bv(i, 64), n)))
        r.post('a failed write reports output_failure', eq(r.ec, bv(1, 32)), NOT(r.ok))
        j = r.univ('j')
        r.post('bytes after the encoding are not touched', eq(r.byte(o, j), o.init.read(j)), AND(ult(j, o.n), ule(n, j)))
    return spec
def write_sink(w, s, kind='bool'):
    """kind: bool - refusals are reported per write; good - by good(); none - cannot be reported"""
    def spec(r):
        r.ghost_init(); rec = r.record(); v = r.value('v', w, s != 0)
        major, arg = int_enc(v, w, s); n, bs = head_spec(major, arg)
        r.call(rec, v); g = r.st.gh
        if kind != 'none': r.post('succeeds exactly when the sink accepts everything', r.ok == NOT(g['ofail']))
        else: r.assume(NOT(g['ofail'])); r.post('succeeds', r.ok)
        r.post('writes the shortest encoding', AND(*[IMP(eq(r.J, bv(i, 64)), eq(g['oJ'], bs[i])) for i in range(9)]), AND(r.ok, ult(r.J, n)))
        r.post('writes exactly its length', eq(g['olen'], n), r.ok)
    return spec

TASKS = []
for n, w, s in INTS:
    TASKS.append(Task('cbor.int.write.%s' % n, 'cbor_int', 'wb_' + n, write_bounded(w, s), ['P']))
    TASKS.append(Task('cbor.int.write_sink.%s' % n, 'cbor_int', 'ws_' + n, write_sink(w, s), ['P']))
    TASKS.append(Task('cbor.int.write_push.%s' % n, 'cbor_int', 'wp_' + n, write_sink(w, s, 'none'), ['P']))
    TASKS.append(Task('cbor.int.write_iter.%s' % n, 'cbor_int', 'wi_' + n, write_sink(w, s, 'none'), ['P']))
    TASKS.append(Task('cbor.int.write_stream.%s' % n, 'cbor_int', 'wo_' + n, write_sink(w, s, 'good'), ['P']))

WIDTH = {24: 1, 25: 2, 26: 4, 27: 8}
def item_head(IN, N, p):
    """head of the item at offset p: (present, major, minor, argument, head length, head is well formed)"""
    b = lambda k: IN.fn(add(p, bv(k, 64)))
    present = ult(p, N)
    ib = b(0); major = z3.LShR(ib, 5); mn = ib & bv(31, 8)
    be = lambda n: concat([b(k) for k in range(1, n + 1)])
    is_ = lambda k: eq(mn, bv(k, 8))
    arg = ite(is_(24), zext(be(1), 64), ite(is_(25), zext(be(2), 64), ite(is_(26), zext(be(4), 64), ite(is_(27), be(8), zext(mn, 64)))))
    hl = ite(is_(24), bv(2, 64), ite(is_(25), bv(3, 64), ite(is_(26), bv(5, 64), ite(is_(27), bv(9, 64), bv(1, 64)))))
    good = AND(present, ule(mn, bv(27, 8)), ule(hl, sub(N, p)))
    return present, major, mn, arg, hl, good
def skip_tag(IN, N):
    """one optional tag: (ok, offset after it)"""
    pr, mj, mn, arg, hl, good = item_head(IN, N, bv(0, 64))
    tagged = AND(pr, eq(mj, bv(6, 8)))
    return OR(NOT(tagged), good), ite(tagged, hl, bv(0, 64))

def read_int(w, s, rewinds=True):
    def spec(r):
        rec = r.record(); t, to = r.cell('t', w // 8); b, e, IN = r.input()
        r.call(rec, t, b, e); N = IN.n
        tok, p = skip_tag(IN, N)
        pr, mj, mn, arg, hl, good = item_head(IN, N, p)
        pos, neg = eq(mj, bv(0, 8)), eq(mj, bv(1, 8))
        M = (1 << w) - 1; SM = (1 << (w - 1)) - 1
        pmax = M if (w == 8 or s != 1) else SM      # one-byte targets and plain characters hold raw code units
        rep = OR(AND(pos, ule(arg, bv(pmax, 64))), AND(neg, ule(arg, bv(SM, 64))) if s else F)
        val = trunc(ite(neg, ~arg, arg), w)
        valid = AND(tok, good, rep)
        fits = OR(ule(mn, bv(23 + {8: 1, 16: 2, 32: 3, 64: 4}[w], 8)))
        tv = r.get(to, 0, w)
        r.post('accepted input is a well-formed, representable integer', valid, r.ok)
        r.post('the value read is exactly the encoded value', eq(tv, val), r.ok)
        r.post('exactly the item (and one optional tag) is consumed', eq(r.end, add(p, hl)), r.ok)
        r.post('a representable integer of fitting width is accepted', r.ok, AND(valid, fits))
        r.post('error code is set exactly on failure', NOT(eq(r.ec, bv(0, 32))) == NOT(r.ok))
        if rewinds: r.post('a rejected item is not consumed', OR(eq(r.end, bv(0, 64)), AND(tok, eq(r.end, p))), NOT(r.ok))
    return spec
for n, w, s in INTS:
    TASKS.append(Task('cbor.int.read.%s' % n, 'cbor_int', 'rd_' + n, read_int(w, s), ['P']))
    TASKS.append(Task('cbor.int.read_forward.%s' % n, 'cbor_int', 'rf_' + n, read_int(w, s), ['P']))
    TASKS.append(Task('cbor.int.read_input.%s' % n, 'cbor_int', 'ri_' + n, read_int(w, s, False), ['P']))
