// JSON strings: reading into a ghost string (the library's own specialisation for basic_string
// runs; only the character container is a stand-in that forwards to the ghost output)
#include <string>
#include "gh.hxx"
struct gh_traits : std::char_traits<char> {};
namespace std {
    template <> class basic_string<char, gh_traits, allocator<char>> {
        public:
        using value_type = char; using iterator = const char*; using const_iterator = const char*; using reference = char&;
        using size_type = size_t;
        const char* p; size_t n;
        const char* data() const { return p; }
        size_t size() const { return n; }
        const char* begin() const { return p; }
        const char* end() const { return p + n; }
    };
}
using gh_string = std::basic_string<char, gh_traits, std::allocator<char>>;
#include "cxon/lib/std/string.hxx"
namespace cxon { namespace cnt {
    template <> struct traits<gh_string> {
        static bool append(gh_string&, char c) { return gh_push(c); }
        static bool append(gh_string&, const char* f, const char* l) { return gh_append(f, l); }
    };
}}
using J = cxon::JSON<>;
struct NV : cxon::json::format_traits { static constexpr bool validate_string_encoding = false; };
ROOT js_rd(R* r, const char* b, const char* e) { gh_string s; gh_rd<J>(r, s, b, e); }
ROOT js_rd_nv(R* r, const char* b, const char* e) { gh_string s; gh_rd<cxon::JSON<NV>>(r, s, b, e); }
ROOT js_wr(R* r, const char* b, const char* e) { gh_string s; s.p = b; s.n = std::size_t(e - b); gh_wr<J>(r, s); }
struct SJ : cxon::json::format_traits { static constexpr bool produce_strict_javascript = true; };
ROOT js_wr_sj(R* r, const char* b, const char* e) { gh_string s; s.p = b; s.n = std::size_t(e - b); gh_wr<cxon::JSON<SJ>>(r, s); }
ROOT js_wr_p(R* r, const char* b, const char* e) { gh_string s; s.p = b; s.n = std::size_t(e - b); gh_wrc<J, gh_push_sink>(r, s); }
ROOT js_wr_s(R* r, const char* b, const char* e) { gh_string s; s.p = b; s.n = std::size_t(e - b); gh_wrc<J, gh_stream>(r, s); }
// the escape of one character (contract of encode_<X, char>::value)
struct gh_e8 { char c; };
namespace cxon {
    template <typename X> struct write<JSON<X>, gh_e8> {
        template <typename O, typename Cx> static bool value(O& o, const gh_e8& t, Cx& cx) { return cio::chr::imp::encode_<JSON<X>, char>::value(o, t.c, cx); }
    };
}
ROOT e8(R* r, char c) { gh_e8 t; t.c = c; gh_wr<J>(r, t); }
ROOT e8_sj(R* r, char c) { gh_e8 t; t.c = c; gh_wr<cxon::JSON<SJ>>(r, t); }
ROOT e8_p(R* r, char c) { gh_e8 t; t.c = c; gh_wrc<J, gh_push_sink>(r, t); }
