// JSON literals and white space
#include "gh.hxx"
using J = cxon::JSON<>;
using CX = cxon::CXCF<>;
#define RD(n, T, X) \
    ROOT rd_##n(R* r, T* t, const char* b, const char* e) { gh_rd<X>(r, *t, b, e); } \
    ROOT rf_##n(R* r, T* t, const char* b, const char* e) { gh_rdi<X, gh_fwd>(r, *t, b, e); } \
    ROOT ri_##n(R* r, T* t, const char* b, const char* e) { gh_rdi<X, gh_inp>(r, *t, b, e); }
RD(bool, bool, J) RD(nil, std::nullptr_t, J)
RD(cbool, bool, CX)
ROOT wb_bool(R* r, bool t, char* b, char* e) { gh_wrb<J>(r, t, b, e); }
ROOT ws_bool(R* r, bool t) { gh_wr<J>(r, t); }
ROOT wp_bool(R* r, bool t) { gh_wrc<J, gh_push_sink>(r, t); }
ROOT wo_bool(R* r, bool t) { gh_wrc<J, gh_stream>(r, t); }
ROOT wi_bool(R* r, bool t) { gh_wri<J>(r, t); }
ROOT wb_nil(R* r, char* b, char* e) { gh_wrb<J>(r, nullptr, b, e); }
ROOT ws_nil(R* r) { gh_wr<J>(r, nullptr); }
ROOT wi_nil(R* r) { gh_wri<J>(r, nullptr); }
// the skipping functions themselves
template <typename X> inline void gh_ws(R* r, const char* b, const char* e) { const char* i = b; r->ok = cxon::cio::consume<X>(i, e); r->end = i - b; r->ec = 0; }
template <typename X, typename It> inline void gh_wsi(R* r, const char* b, const char* e) { It i{b}; r->ok = cxon::cio::consume<X>(i, It{e}); r->end = i.p - b; r->ec = 0; }
ROOT sk_json(R* r, const char* b, const char* e) { gh_ws<J>(r, b, e); }
ROOT skf_json(R* r, const char* b, const char* e) { gh_wsi<J, gh_fwd<char>>(r, b, e); }
ROOT ski_json(R* r, const char* b, const char* e) { gh_wsi<J, gh_inp<char>>(r, b, e); }
ROOT sk_cxcf(R* r, const char* b, const char* e) { gh_ws<CX>(r, b, e); }
ROOT ski_cxcf(R* r, const char* b, const char* e) { gh_wsi<CX, gh_inp<char>>(r, b, e); }
