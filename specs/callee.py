"""Contracts of inner functions, used where they are called; each is proved by the utf.* contracts.
The frame of each is its reference parameters (the position, and the error code of the context)."""
import z3
from vcgen.terms import *
from vcgen.task import *
from .json_tok import *
K = lambda k: bv(k, 64)
BAD = bv(0xffffffff, 32)
def tok_lemma(N, top, longest):
    """what callers may know of a decoded element (valid, length, code point) at any position; proved by utf.lemma.*"""
    def lem(p, v):
        ok, n, cp = v
        return [IMP(ok, AND(ult(p, N), ule(K(1), n), ule(n, K(longest)), ule(n, sub(N, p)), ule(cp, bv(top, 32))))]
    return lem
def category(ex):
    """the library's error category: an object never looked into"""
    if '@category' not in ex.globs: ex.globs['@category'] = ex.new_obj('@category', 0)
    return E.ptr(ex.globs['@category'].id)
def esc_lemma(N, f):
    base = tok_lemma(N, 0x10FFFF, 11)
    def lem(p, v):
        ok, n, cp = v
        return base(p, v) + [IMP(ok, AND(NOT(inr(cp, 0xD800, 0xDFFF)), OR(AND(eq(n, K(1)), ule(cp, bv(0x7F, 32))), AND(eq(n, K(5)), ule(cp, bv(0xFFFF, 32))), eq(n, K(11)))))]
    return lem
def set_error(ex, st, cx, ok, ec):
    """cx.ec becomes some error unless ok"""
    ec0 = ex.load(st, cx, IT[32]); ex.store(st, cx, ite(ok, ec0, ec), IT[32])
    cat = E.Ptr([(cc, o, add(f, K(8))) for cc, o, f in cx.alts]); c0 = ex.load(st, cat, PTR); u = category(ex)
    ex.store(st, cat, E.Ptr([(AND(ok, cc), o, f) for cc, o, f in c0.alts] + [(NOT(ok), u.alts[0][1], u.alts[0][2])]), PTR)
def decoder(r, fn, what):
    """char32_t f(i, e, cx): the element at i as fn(position) describes it"""
    def h(ex, st, a, I, name):
        st = st.copy(); IN = r.tokIN; N = IN.n
        p = position(r, st, ex.load(st, a[0], PTR), IN, what + ': the position is inside the input')
        z = position(r, st, a[1], IN, what + ': the end is inside the input'); ex.oblige('callee', what + ': the end is the end of the input', st, eq(z, N))
        v, n, cp = fn(p); q, ec = fresh('pos', 64), fresh('ec', 32)
        ex.fact(IMP(ule(p, N), AND(ule(p, q), ule(q, N)))); ex.fact(NOT(eq(ec, bv(0, 32))))
        ex.store(st, a[0], E.Ptr([(T, IN.id, ite(v, add(p, n), q))]), PTR)
        set_error(ex, st, a[2], v, ec)
        return ite(v, cp, BAD), st
    return h
def utf8_to_utf32(r): return decoder(r, lambda p: r.tok.at(p), 'decode')
def esc_to_utf32(r): return decoder(r, lambda p: r.escb.at(p), 'escape')
def utf8_check(r):
    """int f(i, e): the length of the well-formed sequence at i, else zero (also for ASCII); requires i != e"""
    def h(ex, st, a, I, name):
        IN = r.tokIN; N = IN.n
        p = position(r, st, a[0], IN, 'check: the position is inside the input')
        z = position(r, st, a[1], IN, 'check: the end is inside the input'); ex.oblige('callee', 'check: the end is the end of the input', st, eq(z, N))
        ex.oblige('callee', 'check: not at the end', st, ult(p, N))
        v, n = r.seq.at(p)
        return ite(AND(v, ule(B8(0x80), IN.fn(p))), trunc(n, 32), bv(0, 32)), st
    return h
def seq_lemma(N, f):
    def lem(p, v):
        ok, n = v
        return [IMP(ok, AND(ult(p, N), ule(K(1), n), ule(n, K(4)), ule(n, sub(N, p)), IMP(ult(f(p), B8(0x80)), eq(n, K(1))))), IMP(AND(ult(p, N), ult(f(p), B8(0x80))), ok)]
    return lem
def opaque_esc(r, IN):
    N, f = IN.n, IN.fn; r.tokIN = IN
    r.escb = r.opaque('escb', [0, 64, 32], lambda p: escape_body(f, N, p), esc_lemma(N, f))
    return lambda f, N, p: r.escb.at(p)
def seq_def(f, N, p):
    v, n, _ = utf8_seq(f, N, p)
    return AND(ult(p, N), v), n
def opaque_seq(r, IN):
    N, f = IN.n, IN.fn; r.tokIN = IN
    r.seq = r.opaque('seq', [0, 64], lambda p: seq_def(f, N, p), seq_lemma(N, f))
    return lambda f, N, p: r.seq.at(p)
DECODER = {'chr13utf8_to_utf32I': utf8_to_utf32}
STRING = {'chr12esc_to_utf32I': esc_to_utf32, 'chr10utf8_checkI': utf8_check}
def esc_char(c):
    """the JSON escape of one character, or itself: (length, 6 bytes)"""
    hx = lambda v: ite(ult(v, B8(10)), add(v, B8(0x30)), add(v, B8(0x57)))
    short = {0x22: 0x22, 0x5C: 0x5C, 8: 0x62, 9: 0x74, 10: 0x6E, 12: 0x66, 13: 0x72}
    is2 = OR(*[eq(c, B8(k)) for k in short]); is6 = AND(NOT(is2), ult(c, B8(0x20)))
    sv = bv(0, 8)
    for k, v in short.items(): sv = ite(eq(c, B8(k)), B8(v), sv)
    return [ite(is2, K(2), ite(is6, K(6), K(1))), ite(OR(is2, is6), B8(0x5C), c), ite(is2, sv, B8(0x75)), B8(0x30), B8(0x30), hx(z3.LShR(c, 4)), hx(c & B8(15))]
def plain_char(c): return AND(ule(B8(0x20), c), NOT(eq(c, B8(0x22))), NOT(eq(c, B8(0x5C))))
def esc_char_lemma(p, v):
    c = trunc(p, 8)
    return [IMP(plain_char(c), AND(eq(v[0], K(1)), eq(v[1], c))), OR(eq(v[0], K(1)), eq(v[0], K(2)), eq(v[0], K(6)))]
def opaque_esc_char(r):
    r.e8 = r.opaque('e8', [64, 8, 8, 8, 8, 8, 8], lambda p: esc_char(trunc(p, 8)), esc_char_lemma)
    return lambda c: r.e8.at(zext(c, 64))
def pick_byte(bs, k):
    b = bs[0]
    for j, x in enumerate(bs[1:], 1): b = ite(eq(k, K(j)), x, b)
    return b
def encode_char(push):
    def contract(r):
        """bool value(o, c, cx): the escape of c, or c, appended to the output as a whole"""
        def h(ex, st, a, I, name):
            st = st.copy(); v = r.e8.at(zext(E.pi_bv(a[1]), 64)); g = st.gh; rel = sub(r.J, g['olen']); n = v[0]
            ok = fresh('enc_ok', 0); ec = fresh('ec', 32); ex.fact(NOT(eq(ec, bv(0, 32))))
            hit = AND(ok, NOT(g['ofail']), ule(g['olen'], r.J), ult(rel, n))
            g['oJ'] = ite(hit, pick_byte(v[1:], rel), g['oJ']); g['olen'] = ite(ok, add(g['olen'], n), g['olen']); g['ofail'] = OR(g['ofail'], NOT(ok))
            if push: return T, st
            set_error(ex, st, a[2], ok, ec)
            return ok, st
        return h
    return contract
WRITER = {'encode_INS_4JSON.*EcE5valueI7gh_sinkN': encode_char(False), 'encode_INS_4JSON.*EcE5valueI12gh_push_sinkN': encode_char(True)}
