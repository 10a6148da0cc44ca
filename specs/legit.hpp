// Legitimate values of the element types with built-in reserved representations, described independently of the
// library (by the type, the ABI and the documentation), as predicates over the object representation.
#pragma once
#include "abs.hpp"
#include <array>
#include <complex>
#include <functional>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

// a pointer value a program can hold: canonical 48-bit address, user or kernel half, including null
inline bool canonical(u64 a) { return a < 0x800000000000u || a >= 0xffff800000000000u; }
// an address of an object or function in user space, or null
inline bool user_addr(u64 a) { return a < 0x800000000000u; }

template<class P> P rd(const void* p, std::size_t off = 0) { P x; __builtin_memcpy(&x, static_cast<const u8*>(p) + off, sizeof(P)); return x; }
template<class P> void wr(void* p, std::size_t off, P x) { __builtin_memcpy(static_cast<u8*>(p) + off, &x, sizeof(P)); }

// Legit<T>: make() writes an arbitrary legitimate representation into storage; the identity of a value is its id()
// (two words that determine the value).
template<class T, class = void> struct Legit;
struct Id { u64 a, b, c; bool operator==(const Id& o) const { return a == o.a && b == o.b && c == o.c; } };

template<> struct Legit<bool> {
    static void make(void* p) { vc_havoc(p, 1); vc_assume(rd<u8>(p) < 2); }
    static Id id(const void* p) { return {rd<u8>(p), 0, 0}; }
};
template<class P> struct Legit<P*> {
    static void make(void* p) { vc_havoc(p, 8); vc_assume(canonical(rd<u64>(p))); }
    static Id id(const void* p) { return {rd<u64>(p), 0, 0}; }
};
template<class P> struct Legit<std::reference_wrapper<P>> {        // refers to an object: never in the first page
    static void make(void* p) { vc_havoc(p, 8); vc_assume(user_addr(rd<u64>(p)) && rd<u64>(p) >= 4096); }
    static Id id(const void* p) { return {rd<u64>(p), 0, 0}; }
};
template<> struct Legit<double> {                                  // everything but signaling NaNs
    static bool ok(u64 b) { return !((b & 0x7ff0000000000000u) == 0x7ff0000000000000u && (b & 0x000fffffffffffffu) != 0 && (b & 0x0008000000000000u) == 0); }
    static void make(void* p) { vc_havoc(p, 8); vc_assume(ok(rd<u64>(p))); }
    static Id id(const void* p) { return {rd<u64>(p), 0, 0}; }
};
template<> struct Legit<float> {
    static bool ok(u32 b) { return !((b & 0x7f800000u) == 0x7f800000u && (b & 0x007fffffu) != 0 && (b & 0x00400000u) == 0); }
    static void make(void* p) { vc_havoc(p, 4); vc_assume(ok(rd<u32>(p))); }
    static Id id(const void* p) { return {rd<u32>(p), 0, 0}; }
};
template<class F> struct Legit<std::complex<F>> {                  // any pair of such numbers (the imaginary part: any bits)
    static void make(void* p) { Legit<F>::make(p); vc_havoc(static_cast<u8*>(p) + sizeof(F), sizeof(F)); }
    static Id id(const void* p) { return {Legit<F>::id(p).a, Legit<F>::id(static_cast<const u8*>(p) + sizeof(F)).a, 0}; }
};
// Itanium ABI: data member pointer = offset, -1 for null; offsets of members are below 2^31 in magnitude and, when they
// are negative (conversion from a base at a larger offset), of small magnitude.
template<class T, class C> struct Legit<T C::*, std::enable_if_t<!std::is_function_v<T>>> {
    static void make(void* p) { vc_havoc(p, 8); const u64 o = rd<u64>(p); vc_assume(o < (u64(1) << 31) || o >= u64(0) - (u64(1) << 24)); }
    static Id id(const void* p) { return {rd<u64>(p), 0, 0}; }
};
// Itanium ABI: member function pointer = {function address, or 1 + vtable offset, or 0 for null; adjustment}
template<class T, class C> struct Legit<T C::*, std::enable_if_t<std::is_function_v<T>>> {
    static void make(void* p) { vc_havoc(p, 16); vc_assume(user_addr(rd<u64>(p))); }
    static Id id(const void* p) { return {rd<u64>(p), rd<u64>(p, 8), 0}; }
};
template<class E> struct Legit<E, std::enable_if_t<std::is_enum_v<E>>> {   // bound: one above the largest OR of enumerators
    static bool ok(u64 x) { return legit_enum(E{}, x); }
    static u64 word(const void* p) { u64 x = 0; __builtin_memcpy(&x, p, sizeof(E)); return x; }
    static void make(void* p) { vc_havoc(p, sizeof(E)); vc_assume(ok(word(p))); }
    static Id id(const void* p) { return {word(p), 0, 0}; }
};
// libstdc++ {length, pointer}
template<class C, class Tr> struct Legit<std::basic_string_view<C, Tr>> {
    static void make(void* p) { vc_havoc(p, 16); vc_assume(user_addr(rd<u64>(p, 8))); vc_assume(user_addr(rd<u64>(p, 0))); }
    static Id id(const void* p) { return {rd<u64>(p), rd<u64>(p, 8), 0}; }
};
template<class P> struct Legit<std::unique_ptr<P>> {
    static void make(void* p) { vc_havoc(p, 8); vc_assume(user_addr(rd<u64>(p))); }
    static Id id(const void* p) { return {rd<u64>(p), 0, 0}; }
};
// libstdc++ {first, last, end of storage}: all null or addresses
template<class E> struct Legit<std::vector<E>> {
    static void make(void* p) { vc_havoc(p, sizeof(std::vector<E>)); vc_assume(user_addr(rd<u64>(p))); }
    static Id id(const void* p) { return {rd<u64>(p), rd<u64>(p, 8), rd<u64>(p, 16)}; }
};
// libstdc++ {data (never null), length, local buffer or capacity}
template<class C> struct Legit<std::basic_string<C>> {
    static void make(void* p) { vc_havoc(p, 32); vc_assume(user_addr(rd<u64>(p)) && rd<u64>(p) != 0); }
    static Id id(const void* p) { return {rd<u64>(p), rd<u64>(p, 8), rd<u64>(p, 16)}; }
};

template<class T>
struct Raw {                                                       // storage for a T, no object
    alignas(T) unsigned char b[sizeof(T)];
    T* p() { return reinterpret_cast<T*>(b); }
};
