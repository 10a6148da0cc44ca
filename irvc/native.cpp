// Native implementation of the vc_* vocabulary: replays one counterexample (argv: specname replayfile) on the real code.
#include "vc.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>

static std::vector<std::vector<unsigned char>> nd;
static std::size_t nd_pos;
static std::map<std::tuple<unsigned, std::uint64_t, std::uint64_t>, std::uint64_t> uf;
static std::map<std::pair<const void*, unsigned>, std::uint64_t> ghost;
static std::map<unsigned, std::vector<unsigned char>> snaps;
static int spec_depth;
static bool trap_ok;

[[noreturn]] static void done(const char* how, const char* label) {
    std::printf("%s %s\n", how, label);
    std::fflush(stdout);
    _exit(std::strcmp(how, "REPRODUCED") == 0 ? 42 : 0);
}
static const std::vector<unsigned char>& next(std::size_t n) {
    if (nd_pos >= nd.size()) { done("DIVERGED", "out of recorded inputs"); }
    auto& r = nd[nd_pos++];
    if (r.size() != n) { done("DIVERGED", "input width"); }
    return r;
}
template<class T>
static T rd() {
    T x;
    std::memcpy(&x, next(sizeof(T)).data(), sizeof(T));
    return x;
}
extern "C" {
std::uint8_t vc_nondet_u8() noexcept { return rd<std::uint8_t>(); }
std::uint16_t vc_nondet_u16() noexcept { return rd<std::uint16_t>(); }
std::uint32_t vc_nondet_u32() noexcept { return rd<std::uint32_t>(); }
std::uint64_t vc_nondet_u64() noexcept { return rd<std::uint64_t>(); }
bool vc_nondet_bool() noexcept { return rd<std::uint8_t>() == 1; }
void* vc_nondet_ptr() noexcept { return reinterpret_cast<void*>(rd<std::uint64_t>()); }
void vc_havoc(void* p, std::size_t n) noexcept { if (n) std::memcpy(p, next(n).data(), n); }
void vc_make_indeterminate(void* p, std::size_t n) noexcept { std::memset(p, 0xA5, n); }
void vc_assume(bool b) noexcept { if (!b) done("DIVERGED", "assumption false"); }
void vc_assert(bool b, const char* l) noexcept { if (!b) done("REPRODUCED", l); }
void vc_cover(const char*) noexcept {}
void vc_spec(bool b) noexcept { spec_depth += b ? 1 : -1; }
void vc_end() noexcept { done("PASSED", "end"); }
std::uint64_t vc_uf(std::uint32_t i, std::uint64_t a, std::uint64_t b) noexcept {
    auto it = uf.find({i, a, b});
    return it == uf.end() ? 0 : it->second;
}
void vc_ghost_set(const void* p, std::uint32_t k, std::uint64_t v) noexcept { ghost[{p, k}] = v; }
std::uint64_t vc_ghost_get(const void* p, std::uint32_t k) noexcept {
    auto it = ghost.find({p, k});
    return it == ghost.end() ? 0 : it->second;
}
std::uint32_t vc_ghost_in(const void* p, std::size_t n, std::uint32_t k, std::uint64_t v) noexcept {
    unsigned c = 0;
    for (auto& e : ghost) {
        c += e.first.second == k && e.second == v && e.first.first >= p && e.first.first < (const char*)p + n;
    }
    return c;
}
std::uint32_t vc_ghost_count(std::uint32_t k, std::uint64_t v) noexcept {
    unsigned c = 0;
    for (auto& e : ghost) { c += e.first.second == k && e.second == v; }
    return c;
}
void vc_trap_ok(bool b) noexcept { trap_ok = b; }
void vc_assigns_begin() noexcept {}
void vc_assigns_allow(const void*, std::size_t) noexcept {}
void vc_assigns_end(const char*) noexcept {}
void vc_snap(const void* p, std::size_t n, std::uint32_t k) noexcept {
    snaps[k].assign((const unsigned char*)p, (const unsigned char*)p + n);
}
bool vc_same(const void* p, std::size_t n, std::uint32_t k) noexcept { return std::memcmp(p, snaps[k].data(), n) == 0; }
}
static void on_sig(int s) {
    if (trap_ok && (s == SIGTRAP || s == SIGILL)) { _exit(0); }
    const char m[] = "REPRODUCED signal\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(42);
}
int main(int argc, char** argv) {
    if (argc < 3) { return 3; }
    for (int s : {SIGTRAP, SIGILL, SIGSEGV, SIGBUS, SIGABRT, SIGFPE}) { std::signal(s, on_sig); }
    std::FILE* f = std::fopen(argv[2], "r");
    if (!f) { return 3; }
    static char line[1 << 16];
    while (std::fgets(line, sizeof line, f)) {
        if (line[0] == 'N') {
            std::vector<unsigned char> b;
            for (char* p = line + 2; p[0] > ' ' && p[1] > ' '; p += 2) {
                unsigned x;
                std::sscanf(p, "%2x", &x);
                b.push_back((unsigned char)x);
            }
            nd.push_back(b);
        } else if (line[0] == 'U') {
            unsigned i;
            unsigned long long a, b, r;
            if (std::sscanf(line + 1, "%u %llx %llx %llx", &i, &a, &b, &r) == 4) { uf[{i, a, b}] = r; }
        }
    }
    std::fclose(f);
    auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!fn) { return 3; }
    try {
        fn();
    } catch (...) {
        done("REPRODUCED", "exception escapes");
    }
    done("PASSED", "no failure on this run");
}
