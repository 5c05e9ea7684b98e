// Ghost output sink and result record shared by all harness roots. The ghost functions are
// bodiless in the verified build (their contracts live in /verif/specs) and defined natively
// in the replay driver.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
extern "C" {
    bool gh_push(char c);                             // append one byte to the ghost output
    bool gh_append(const char* f, const char* l);     // append a range to the ghost output
    bool gh_fill(unsigned n, char c);                 // append n copies of a byte to the ghost output
}
struct gh_sink {                                      // byte sink, may refuse output
    using value_type = char; using iterator = const char*; using const_iterator = const char*;
    bool append(char c) { return gh_push(c); }
    bool append(signed char c) { return gh_push(char(c)); }
    bool append(unsigned char c) { return gh_push(char(c)); }
    bool append(const char* f, const char* l) { return gh_append(f, l); }
    bool append(const char* f, std::size_t n) { return gh_append(f, f + n); }
    bool append(const unsigned char* f, const unsigned char* l) { return gh_append((const char*)f, (const char*)l); }
    bool append(const unsigned char* f, std::size_t n) { return gh_append((const char*)f, (const char*)f + n); }
    void push_back(char c) { gh_push(c); }
    const char* begin() const { return nullptr; }
    const char* end() const { return nullptr; }
    char back() const;
    bool empty() const;
};
struct gh_push_sink {                                 // container with push_back only
    using value_type = char; using iterator = const char*; using const_iterator = const char*;
    void push_back(char c) { gh_push(c); }
    const char* begin() const { return nullptr; }
    const char* end() const { return nullptr; }
};
struct gh_out_it {                                    // output iterator
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = void; using pointer = void; using reference = void;
    gh_out_it& operator =(char c) { gh_push(c); return *this; }
    gh_out_it& operator *() { return *this; }
    gh_out_it& operator ++() { return *this; }
    gh_out_it operator ++(int) { return *this; }
};
struct gh_stream {                                    // push_back with a good() state, like an output stream
    using value_type = char; using iterator = const char*; using const_iterator = const char*;
    bool ok = true;
    void push_back(char c) { bool const r = gh_push(c); ok = ok && r; }
    bool good() const { return ok; }
    const char* begin() const { return nullptr; }
    const char* end() const { return nullptr; }
};
template <typename C, typename Cat> struct gh_it {    // iterator of a weaker category over a range
    using iterator_category = Cat; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = const C&;
    const C* p;
    const C& operator *() const { return *p; }
    gh_it& operator ++() { ++p; return *this; }
    gh_it operator ++(int) { gh_it t = *this; ++p; return t; }
    bool operator ==(const gh_it& o) const { return p == o.p; }
    bool operator !=(const gh_it& o) const { return p != o.p; }
};
template <typename C> using gh_fwd = gh_it<C, std::forward_iterator_tag>;
template <typename C> using gh_inp = gh_it<C, std::input_iterator_tag>;
struct R { std::int64_t end; std::int32_t ec; std::int32_t ok; };
#define ROOT extern "C" void
template <typename X, typename T> inline void gh_rd(R* r, T& t, const char* b, const char* e) {
    auto const q = cxon::from_bytes<X>(t, b, e);
    r->end = q.end - b; r->ec = q.ec.value(); r->ok = !!q;
}
template <typename X, typename T> inline void gh_rdu(R* r, T& t, const unsigned char* b, const unsigned char* e) {
    auto const q = cxon::from_bytes<X>(t, b, e);
    r->end = q.end - b; r->ec = q.ec.value(); r->ok = !!q;
}
template <typename X, typename T> inline void gh_wr(R* r, const T& t) {       // to the ghost sink
    gh_sink o; auto const q = cxon::to_bytes<X>(o, t);
    r->end = 0; r->ec = q.ec.value(); r->ok = !!q;
}
template <typename X, typename T> inline void gh_wrb(R* r, const T& t, char* b, char* e) { // bounded
    auto const q = cxon::to_bytes<X>(b, e, t);
    r->end = q.end - b; r->ec = q.ec.value(); r->ok = !!q;
}
template <typename X, template <typename> class It, typename C, typename T> inline void gh_rdi(R* r, T& t, const C* b, const C* e) {
    auto const q = cxon::from_bytes<X>(t, It<C>{b}, It<C>{e});
    r->end = q.end.p - b; r->ec = q.ec.value(); r->ok = !!q;
}
template <typename X, typename O, typename T> inline void gh_wrc(R* r, const T& t) {       // to another container kind
    O o; auto const q = cxon::to_bytes<X>(o, t);
    r->end = 0; r->ec = q.ec.value(); r->ok = !!q;
}
template <typename X, typename T> inline void gh_wri(R* r, const T& t) {
    auto const q = cxon::to_bytes<X>(gh_out_it(), t);
    r->end = 0; r->ec = q.ec.value(); r->ok = !!q;
}
