// CBOR floating point, booleans and null
#include <cstring>
#include "gh.hxx"
using C = cxon::CBOR<>;
template <typename T, typename U> inline T gh_bits(U u) { T t; std::memcpy(&t, &u, sizeof(t)); return t; }
ROOT wb_f32(R* r, std::uint32_t u, char* b, char* e) { gh_wrb<C>(r, gh_bits<float>(u), b, e); }
ROOT wb_f64(R* r, std::uint64_t u, char* b, char* e) { gh_wrb<C>(r, gh_bits<double>(u), b, e); }
ROOT ws_f32(R* r, std::uint32_t u) { gh_wr<C>(r, gh_bits<float>(u)); }
ROOT ws_f64(R* r, std::uint64_t u) { gh_wr<C>(r, gh_bits<double>(u)); }
ROOT wp_f64(R* r, std::uint64_t u) { gh_wrc<C, gh_push_sink>(r, gh_bits<double>(u)); }
ROOT wo_f32(R* r, std::uint32_t u) { gh_wrc<C, gh_stream>(r, gh_bits<float>(u)); }
ROOT wi_f64(R* r, std::uint64_t u) { gh_wri<C>(r, gh_bits<double>(u)); }
ROOT wb_bool(R* r, bool t, char* b, char* e) { gh_wrb<C>(r, t, b, e); }
ROOT ws_bool(R* r, bool t) { gh_wr<C>(r, t); }
ROOT wb_nil(R* r, char* b, char* e) { gh_wrb<C>(r, nullptr, b, e); }
ROOT ws_nil(R* r) { gh_wr<C>(r, nullptr); }
#define RD(n, T) \
    ROOT rd_##n(R* r, T* t, const unsigned char* b, const unsigned char* e) { gh_rdu<C>(r, *t, b, e); } \
    ROOT rf_##n(R* r, T* t, const unsigned char* b, const unsigned char* e) { gh_rdi<C, gh_fwd>(r, *t, b, e); } \
    ROOT ri_##n(R* r, T* t, const unsigned char* b, const unsigned char* e) { gh_rdi<C, gh_inp>(r, *t, b, e); } \
    ROOT rc_##n(R* r, T* t, const char* b, const char* e) { gh_rd<C>(r, *t, b, e); }
RD(f32, float) RD(f64, double) RD(bool, bool) RD(nil, std::nullptr_t)
