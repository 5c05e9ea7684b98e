// UTF-8/16/32 conversions
#include "gh.hxx"
namespace chr = cxon::cio::chr;
struct NV : cxon::json::format_traits { static constexpr bool validate_string_encoding = false; };
using J = cxon::JSON<>; using JNV = cxon::JSON<NV>;
struct gh_cp { char32_t v; }; struct gh_esc { char32_t v; };
namespace cxon {
    template <typename X> struct read<JSON<X>, gh_cp> {
        template <typename II, typename Cx> static bool value(gh_cp& t, II& i, II e, Cx& cx) { return (t.v = cio::chr::utf8_to_utf32<X>(i, e, cx)) != cio::chr::bad_utf32; }
    };
    template <typename X> struct read<JSON<X>, gh_esc> {
        template <typename II, typename Cx> static bool value(gh_esc& t, II& i, II e, Cx& cx) { return (t.v = cio::chr::esc_to_utf32<X>(i, e, cx)) != cio::chr::bad_utf32; }
    };
}
ROOT enc8(R* r, std::uint32_t c, char* t) { char b[4] = {0, 0, 0, 0}; r->end = chr::utf32_to_utf8(b, c); for (int i = 0; i != 4; ++i) t[i] = b[i]; r->ok = 1; r->ec = 0; }
ROOT chk_ra(R* r, const char* b, const char* e) { r->end = chr::utf8_check(b, e); r->ok = 1; r->ec = 0; }
ROOT chk_fwd(R* r, const char* b, const char* e) { r->end = chr::utf8_check(gh_fwd<char>{b}, gh_fwd<char>{e}); r->ok = 1; r->ec = 0; }
#define DEC(n, X) \
    ROOT dec_##n(R* r, std::uint32_t* t, const char* b, const char* e) { gh_cp c; gh_rd<X>(r, c, b, e); *t = c.v; } \
    ROOT decf_##n(R* r, std::uint32_t* t, const char* b, const char* e) { gh_cp c; gh_rdi<X, gh_fwd>(r, c, b, e); *t = c.v; } \
    ROOT deci_##n(R* r, std::uint32_t* t, const char* b, const char* e) { gh_cp c; gh_rdi<X, gh_inp>(r, c, b, e); *t = c.v; }
DEC(v, J) DEC(nv, JNV)
ROOT esc_v(R* r, std::uint32_t* t, const char* b, const char* e) { gh_esc c; gh_rd<J>(r, c, b, e); *t = c.v; }
ROOT escf_v(R* r, std::uint32_t* t, const char* b, const char* e) { gh_esc c; gh_rdi<J, gh_fwd>(r, c, b, e); *t = c.v; }
ROOT esci_v(R* r, std::uint32_t* t, const char* b, const char* e) { gh_esc c; gh_rdi<J, gh_inp>(r, c, b, e); *t = c.v; }
// a single character as JSON
#define CH(n, T) \
    ROOT rd_##n(R* r, T* t, const char* b, const char* e) { gh_rd<J>(r, *t, b, e); } \
    ROOT rf_##n(R* r, T* t, const char* b, const char* e) { gh_rdi<J, gh_fwd>(r, *t, b, e); } \
    ROOT ri_##n(R* r, T* t, const char* b, const char* e) { gh_rdi<J, gh_inp>(r, *t, b, e); } \
    ROOT ws_##n(R* r, T t) { gh_wr<J>(r, t); } \
    ROOT wb_##n(R* r, T t, char* b, char* e) { gh_wrb<J>(r, t, b, e); }
CH(ch, char) CH(c16, char16_t) CH(c32, char32_t) CH(wc, wchar_t)
