#include "gh.hxx"
using C = cxon::CBOR<>;
#define INTS(F) F(u8, unsigned char) F(i8, signed char) F(u16, unsigned short) F(i16, short) F(u32, unsigned) F(i32, int) \
    F(u64, unsigned long) F(i64, long) F(ull, unsigned long long) F(ll, long long) F(ch, char) F(wc, wchar_t) F(c16, char16_t) F(c32, char32_t)
#define RD(n, T) ROOT rd_##n(R* r, T* t, const unsigned char* b, const unsigned char* e) { gh_rdu<C>(r, *t, b, e); }
#define WB(n, T) ROOT wb_##n(R* r, T t, char* b, char* e) { gh_wrb<C>(r, t, b, e); }
#define WS(n, T) ROOT ws_##n(R* r, T t) { gh_wr<C>(r, t); }
INTS(RD) INTS(WB) INTS(WS)
// the library's other input and output paths
#define RDF(n, T) ROOT rf_##n(R* r, T* t, const unsigned char* b, const unsigned char* e) { gh_rdi<C, gh_fwd>(r, *t, b, e); }
#define RDI(n, T) ROOT ri_##n(R* r, T* t, const unsigned char* b, const unsigned char* e) { gh_rdi<C, gh_inp>(r, *t, b, e); }
#define WP(n, T) ROOT wp_##n(R* r, T t) { gh_wrc<C, gh_push_sink>(r, t); }
#define WI(n, T) ROOT wi_##n(R* r, T t) { gh_wri<C>(r, t); }
#define WO(n, T) ROOT wo_##n(R* r, T t) { gh_wrc<C, gh_stream>(r, t); }
INTS(RDF) INTS(RDI) INTS(WP) INTS(WI) INTS(WO)
