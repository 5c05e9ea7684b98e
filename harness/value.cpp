// skipping of whole JSON values, and the list and object skeletons
#include "gh.hxx"
using J = cxon::JSON<>;
namespace val = cxon::cio::val;
ROOT vs_skip(R* r, const char* b, const char* e) { val::sink<> s; gh_rd<J>(r, s, b, e); }
ROOT vs_skip_fwd(R* r, const char* b, const char* e) { val::sink<> s; gh_rdi<J, gh_fwd>(r, s, b, e); }
ROOT vs_skip_inp(R* r, const char* b, const char* e) { val::sink<> s; gh_rdi<J, gh_inp>(r, s, b, e); }
// the skipped text may be kept: everything consumed goes to the container, which may refuse
ROOT vs_keep(R* r, const char* b, const char* e) { val::sink<gh_sink> s; gh_rd<J>(r, s, b, e); }
// an element: one letter or digit, passed on to the ghost output; anything else is an error at its position
template <typename X, typename II, typename Cx> inline bool gh_element(II& i, II e, Cx& cx) {
    if (!cxon::cio::consume<X>(i, e, cx)) return false;
    if (i == e || *i < '0' || *i > '9') return cx/cxon::json::read_error::integral_invalid;
    bool const p = gh_push(*i); ++i;
    return p || cx/cxon::json::read_error::overflow;
}
template <bool M> struct gh_cnt {
    template <typename X, typename II, typename Cx> static bool rd(II& i, II e, Cx& cx) {
        CXON_IF_CONSTEXPR (M)   return cxon::cio::cnt::read_map<X>(i, e, cx, [&] { return gh_element<X>(i, e, cx); });
        else                    return cxon::cio::cnt::read_list<X>(i, e, cx, [&] { return gh_element<X>(i, e, cx); });
    }
    const char *f, *l;
    template <typename X, typename O, typename Cx> bool wr(O& o, Cx& cx) const {
        auto const el = [&](char c) { return cxon::cio::poke<X>(o, c, cx); };
        CXON_IF_CONSTEXPR (M)   return cxon::cio::cnt::write_map<X, gh_cnt>(o, f, l, cx, el);
        else                    return cxon::cio::cnt::write_list<X, gh_cnt>(o, f, l, cx, el);
    }
};
namespace cxon {
    template <typename X, bool M> struct read<JSON<X>, gh_cnt<M>> {
        template <typename II, typename Cx, typename Y = JSON<X>> static bool value(gh_cnt<M>&, II& i, II e, Cx& cx) { return gh_cnt<M>::template rd<Y>(i, e, cx); }
    };
    template <typename X, bool M> struct write<JSON<X>, gh_cnt<M>> {
        template <typename O, typename Cx, typename Y = JSON<X>> static bool value(O& o, const gh_cnt<M>& t, Cx& cx) { return t.template wr<Y>(o, cx); }
    };
}
struct TS : cxon::json::format_traits { static constexpr bool allow_trailing_separators = true; };
ROOT rl_list(R* r, const char* b, const char* e) { gh_cnt<false> c{0, 0}; gh_rd<J>(r, c, b, e); }
ROOT rl_list_inp(R* r, const char* b, const char* e) { gh_cnt<false> c{0, 0}; gh_rdi<J, gh_inp>(r, c, b, e); }
ROOT rl_map(R* r, const char* b, const char* e) { gh_cnt<true> c{0, 0}; gh_rd<J>(r, c, b, e); }
ROOT rl_list_ts(R* r, const char* b, const char* e) { gh_cnt<false> c{0, 0}; gh_rd<cxon::JSON<TS>>(r, c, b, e); }
ROOT rl_map_ts(R* r, const char* b, const char* e) { gh_cnt<true> c{0, 0}; gh_rd<cxon::JSON<TS>>(r, c, b, e); }
ROOT wl_list(R* r, const char* b, const char* e) { gh_cnt<false> c{b, e}; gh_wr<J>(r, c); }
ROOT wl_map(R* r, const char* b, const char* e) { gh_cnt<true> c{b, e}; gh_wr<J>(r, c); }
