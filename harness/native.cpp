// native definitions of the ghost sink, linked only into the replay build
#include <cstdint>
#include <cstddef>
#include <string>
static std::string& out() { static std::string s; return s; }
static std::uint64_t lim; static bool ref;
extern "C" {
    void gh_reset(std::uint64_t n) { out().clear(); lim = n; ref = false; }
    std::size_t gh_len() { return out().size(); }
    const char* gh_ptr() { return out().data(); }
    int gh_refused() { return ref; }
    bool gh_push(char c) {
        if (ref || out().size() + 1 > lim) return !(ref = true);
        out().push_back(c); return true;
    }
    bool gh_append(const char* f, const char* l) {
        if (ref || out().size() + std::size_t(l - f) > lim) return !(ref = true);
        out().append(f, l); return true;
    }
    bool gh_fill(unsigned n, char c) {
        if (ref || out().size() + n > lim) return !(ref = true);
        out().append(n, c); return true;
    }
}
