// Output adapters: the bounded range container, and the buffering output iterator over a ghost sink
#include <array>
#include "gh.hxx"
using cxon::cnt::make_range_container;
// an arbitrary prefix, then one more operation of each kind
#define RC(name, op) \
    ROOT rc_##name(R* r, const char* f, const char* l, const char* f2, const char* l2, char c, unsigned n, char* b, char* e) { \
        auto o = make_range_container(b, e); \
        bool const p = o.append(f, l); if (!p) { r->ok = 0; r->ec = 0; r->end = o.end() - b; return; } \
        bool const q = op; r->ok = q; r->ec = 1; r->end = o.end() - b; }
RC(range, o.append(f2, l2))
RC(count, o.append(f2, std::size_t(l2 - f2)))
RC(one, o.append(c))
RC(fill, o.append(n, c))
// buffering iterator: the buffer object is a plain range with a size
struct gh_buf { using size_type = std::size_t; char* p; std::size_t n; std::size_t size() const { return n; } char* data() { return p; } char& operator[](std::size_t i) { return p[i]; } };
struct gh_sink_f : gh_sink { using gh_sink::append; bool append(unsigned n, char c) { return gh_fill(n, c); } };
// one operation on an iterator in any reachable state, then flush by the destructor
template <typename F> inline void bb(R* r, char* b, char* e, const char* f, const char* l, F op) {
    gh_sink_f s; gh_buf m{b, std::size_t(e - b)};
    {
        auto i = cxon::cio::buffered_back_inserter(s, m);
        i.append(f, l);
        op(i);
    }
    r->ok = 1; r->ec = 0; r->end = 0;
}
#define BB(name, op) ROOT bb_##name(R* r, char* b, char* e, const char* f, const char* l, const char* f2, const char* l2, char c, unsigned n) { bb(r, b, e, f, l, [&](auto& i) { op; }); }
BB(one, i.append(c))
BB(assign, *i = c; ++i)
BB(range, i.append(f2, l2))
BB(count, i.append(f2, std::size_t(l2 - f2)))
BB(fill, i.append(n, c))
BB(flush, i.flush(); i.append(f2, l2))
// pairs of operations, so that every operation starts from a buffer filled by every other
BB(one_range, i.append(c); i.append(f2, l2))
BB(range_one, i.append(f2, l2); i.append(c))
BB(poke, cxon::cio::poke(i, c); cxon::cio::poke(i, f2, std::size_t(l2 - f2)))
// copies: what was pending in the original is delivered before anything the copy appends, and only once
BB(copy, auto k = i; k.append(f2, l2))
BB(postfix, *i++ = c; *i++ = char(n))
BB(by_value, ([&](auto k) { k.append(f2, l2); }(i)); i.append(c))
