"""Token-level grammar of JSON strings (RFC 8259 section 7, Unicode table 3-7)."""
import z3
from vcgen.terms import *
B8 = lambda k: bv(k, 8)
def inr(b, lo, hi): return AND(ule(bv(lo, b.size()), b), ule(b, bv(hi, b.size())))
def hexval(b):
    """(is a hexadecimal digit, value as 16 bits)"""
    d, l, u = inr(b, 0x30, 0x39), inr(b, 0x61, 0x66), inr(b, 0x41, 0x46)
    return OR(d, l, u), zext(ite(d, b - B8(0x30), ite(l, b - B8(0x57), b - B8(0x37))), 16)
def hex4(f, i):
    v, ok = None, T
    for k in range(4):
        o, h = hexval(f(add(i, bv(k, 64)))); ok = AND(ok, o)
        v = h if v is None else (v << 4) | h
    return ok, v
def utf8_seq(f, N, i):
    """well-formed UTF-8 sequence at i: (valid, length)"""
    b = [f(add(i, bv(k, 64))) for k in range(4)]; left = sub(N, i)
    c = lambda k: inr(b[k], 0x80, 0xBF)
    v1 = ule(b[0], B8(0x7F))
    v2 = AND(inr(b[0], 0xC2, 0xDF), ule(bv(2, 64), left), c(1))
    s3 = ite(eq(b[0], B8(0xE0)), inr(b[1], 0xA0, 0xBF), ite(eq(b[0], B8(0xED)), inr(b[1], 0x80, 0x9F), c(1)))
    v3 = AND(inr(b[0], 0xE0, 0xEF), ule(bv(3, 64), left), s3, c(2))
    s4 = ite(eq(b[0], B8(0xF0)), inr(b[1], 0x90, 0xBF), ite(eq(b[0], B8(0xF4)), inr(b[1], 0x80, 0x8F), c(1)))
    v4 = AND(inr(b[0], 0xF0, 0xF4), ule(bv(4, 64), left), s4, c(2), c(3))
    return OR(v1, v2, v3, v4), ite(v1, bv(1, 64), ite(v2, bv(2, 64), ite(v3, bv(3, 64), bv(4, 64)))), b
def utf8_cp(b, n):
    """code point of a well-formed sequence (32 bits)"""
    z = [zext(x, 32) for x in b]; lo = lambda k: z[k] & bv(0x3F, 32)
    return ite(eq(n, bv(1, 64)), z[0], ite(eq(n, bv(2, 64)), ((z[0] & bv(0x1F, 32)) << 6) | lo(1),
           ite(eq(n, bv(3, 64)), ((z[0] & bv(0x0F, 32)) << 12) | (lo(1) << 6) | lo(2), ((z[0] & bv(7, 32)) << 18) | (lo(1) << 12) | (lo(2) << 6) | lo(3))))
def cp_utf8(cp):
    """UTF-8 encoding of a 32-bit scalar value: ([4 bytes], length)"""
    t = lambda x: trunc(x, 8); S = lambda k: z3.LShR(cp, k)
    c = lambda x: t((x & bv(0x3F, 32)) | bv(0x80, 32))
    n = ite(ule(cp, bv(0x7F, 32)), bv(1, 64), ite(ule(cp, bv(0x7FF, 32)), bv(2, 64), ite(ule(cp, bv(0xFFFF, 32)), bv(3, 64), bv(4, 64))))
    is_ = lambda k: eq(n, bv(k, 64))
    b0 = ite(is_(1), t(cp), ite(is_(2), t(S(6) | bv(0xC0, 32)), ite(is_(3), t(S(12) | bv(0xE0, 32)), t(S(18) | bv(0xF0, 32)))))
    b1 = ite(is_(2), c(cp), ite(is_(3), c(S(6)), c(S(12))))
    b2 = ite(is_(3), c(cp), c(S(6)))
    return [b0, b1, b2, c(cp)], n
ESC = {0x22: 0x22, 0x5C: 0x5C, 0x2F: 0x2F, 0x62: 8, 0x66: 12, 0x6E: 10, 0x72: 13, 0x74: 9}
def escape_body(f, N, i):
    """rest of an escape sequence, i right after the backslash: (valid, length, code point)"""
    left = sub(N, i); c = f(i)
    simple = OR(*[eq(c, B8(k)) for k in ESC]); sv = bv(0, 32)
    for k, v in ESC.items(): sv = ite(eq(c, B8(k)), bv(v, 32), sv)
    at = lambda k: add(i, bv(k, 64))
    hk, h = hex4(f, at(1))
    u = AND(eq(c, B8(0x75)), ule(bv(5, 64), left), hk)
    high, low = inr(h, 0xD800, 0xDBFF), inr(h, 0xDC00, 0xDFFF)
    hk2, h2 = hex4(f, at(7))
    pair = AND(u, high, ule(bv(11, 64), left), eq(f(at(5)), B8(0x5C)), eq(f(at(6)), B8(0x75)), hk2, inr(h2, 0xDC00, 0xDFFF))
    single = AND(u, NOT(high), NOT(low))
    pcp = add(bv(0x10000, 32), (zext(h & bv(0x3FF, 16), 32) << 10) | zext(h2 & bv(0x3FF, 16), 32))
    s = AND(simple, ule(bv(1, 64), left))
    return AND(ult(i, N), OR(s, single, pair)), ite(s, bv(1, 64), ite(pair, bv(11, 64), bv(5, 64))), ite(s, sv, ite(pair, pcp, zext(h, 32)))
def escape(f, N, i, body=escape_body):
    """escape sequence whose backslash is at i: (valid, length, code point)"""
    v, n, cp = body(f, N, add(i, bv(1, 64)))
    return AND(ult(i, N), v), add(n, bv(1, 64)), cp
def str_tok8(f, N, i, validate=True, body=escape_body, seq=None, enc=cp_utf8):
    """one element of a JSON string body -> UTF-8 bytes"""
    c = f(i); esc = eq(c, B8(0x5C))
    ev, en, cp = escape(f, N, i, body); eb, eon = enc(cp)
    if validate:
        uv, un = (seq or utf8_seq)(f, N, i)[:2]
    else: uv, un = T, bv(1, 64)
    raw = AND(uv, ule(B8(0x20), c), NOT(eq(c, B8(0x22))))
    v = AND(ult(i, N), ite(esc, ev, raw))
    def out(k):
        b = eb[0]
        for j in (1, 2, 3): b = ite(eq(k, bv(j, 64)), eb[j], b)
        return ite(esc, b, f(add(i, k)))
    return v, ite(esc, en, un), out, ite(esc, eon, un)
WS = (0x20, 0x09, 0x0A, 0x0D)
def is_ws(b): return OR(*[eq(b, B8(k)) for k in WS])
