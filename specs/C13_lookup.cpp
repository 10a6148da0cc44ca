// C13: container lookups return exactly the element asked for
#include "abs.hpp"
#include <array>
#include <variant>
#include <vector>
#include <string_view>

// --- abstract sequence container: size() is any number, elements live at any address --------------------------------
struct El { u32 v; El() = delete; El(const El&) = delete; };        // any copy of an element would not compile
template<class E>
struct Seq {
    u64 n;
    E* base;
    mutable u32 idx_calls = 0, front_calls = 0, back_calls = 0;
    std::size_t size() const { return n; }
    E* addr(u64 i) const { return reinterpret_cast<E*>(std::uintptr_t(vc_uf(UF_G, i, 0)) | 0x10000); }
    E& operator[](std::size_t i) { ++idx_calls; vc_assert(i < n, "index out of bounds"); return *addr(i); }
    const E& operator[](std::size_t i) const { ++idx_calls; vc_assert(i < n, "index out of bounds"); return *addr(i); }
    E& front() { ++front_calls; vc_assert(n > 0, "front() of an empty container"); return *addr(0); }
    const E& front() const { ++front_calls; vc_assert(n > 0, "front() of an empty container"); return *addr(0); }
    E& back() { ++back_calls; vc_assert(n > 0, "back() of an empty container"); return *addr(n - 1); }
    const E& back() const { ++back_calls; vc_assert(n > 0, "back() of an empty container"); return *addr(n - 1); }
};
template<class E>
void sequence() {
    Seq<E> c{vc_nondet_u64(), nullptr};
    const Seq<E>& cc = c;
    const u64 n = c.n, i = vc_nondet_u64();
    E* const e = i < n ? c.addr(i) : nullptr;
    E* const f = n > 0 ? c.addr(0) : nullptr;
    E* const b = n > 0 ? c.addr(n - 1) : nullptr;
    vc_cover("reached");
    if (e) { vc_cover("in range"); } else { vc_cover("out of range"); }
#define REF(R, TYPE, P, L) vc_assert(std::is_same_v<decltype(R), opt::option<TYPE>>, L " yields " #TYPE); vc_assert(R.has_value() == (P != nullptr), L " is engaged iff the element exists"); vc_assert(R.ptr_or_null() == P, L " refers to exactly that element");
    ALT({ auto r = opt::at(c, i); REF(r, E&, e, "at") vc_assert(c.idx_calls == (e != nullptr), "at looks at the container at most once"); })
    ALT({ auto r = opt::at(cc, i); REF(r, const E&, e, "at const") })
    ALT({ auto r = opt::at(std::move(c), i); REF(r, E&&, e, "at &&") })
    ALT({ auto r = opt::at(c, n); REF(r, E&, static_cast<E*>(nullptr), "at(size)") })
    ALT({ auto r = opt::at(c, std::size_t(-1)); REF(r, E&, static_cast<E*>(nullptr), "at(max)") })
    ALT({ auto r = opt::at_front(c); REF(r, E&, f, "at_front") })
    ALT({ auto r = opt::at_front(cc); REF(r, const E&, f, "at_front const") })
    ALT({ auto r = opt::at_front(std::move(c)); REF(r, E&&, f, "at_front &&") })
    ALT({ auto r = opt::at_back(c); REF(r, E&, b, "at_back") })
    ALT({ auto r = opt::at_back(cc); REF(r, const E&, b, "at_back const") })
    ALT({ auto r = opt::at_back(std::move(c)); REF(r, E&&, b, "at_back &&") })
}
VC_SPEC(C13_sequence_el) { sequence<El>(); }
VC_SPEC(C13_sequence_int) { sequence<u32>(); }
VC_SPEC(C13_sequence_bool) { sequence<bool>(); }
VC_SPEC(C13_sequence_ptr) { sequence<u32*>(); }
// a container whose operator[] yields a proxy value, like vector<bool>
struct Proxy { u64 n; std::size_t size() const { return n; } bool operator[](std::size_t i) const { vc_assert(i < n, "index out of bounds"); return (vc_uf(UF_G, i, 1) & 1) != 0; } };
VC_SPEC(C13_proxy) {
    const Proxy c{vc_nondet_u64()};
    const u64 i = vc_nondet_u64();
    vc_cover("reached");
    auto r = opt::at(Proxy(c), i);
    vc_assert(r.has_value() == (i < c.n), "at of a proxy container is engaged iff the index exists");
    if (i < c.n) { vc_assert(*r == ((vc_uf(UF_G, i, 1) & 1) != 0), "at of a proxy container holds the proxy's value"); }
}
// a container whose accessors depend on its value category: the one of the category passed is asked
struct Ref2 {
    u64 n;
    El* l; const El* cl; El* r; const El* cr;
    std::size_t size() const { return n; }
    El& operator[](std::size_t i) & { vc_assert(i < n, "index out of bounds"); return *l; }
    const El& operator[](std::size_t i) const& { vc_assert(i < n, "index out of bounds"); return *cl; }
    El&& operator[](std::size_t i) && { vc_assert(i < n, "index out of bounds"); return static_cast<El&&>(*r); }
    const El&& operator[](std::size_t i) const&& { vc_assert(i < n, "index out of bounds"); return static_cast<const El&&>(*cr); }
#define ENDS(F) El& F() & { vc_assert(n > 0, #F "() of an empty container"); return *l; } const El& F() const& { vc_assert(n > 0, #F "() of an empty container"); return *cl; }                    \
                El&& F() && { vc_assert(n > 0, #F "() of an empty container"); return static_cast<El&&>(*r); } const El&& F() const&& { vc_assert(n > 0, #F "() of an empty container"); return static_cast<const El&&>(*cr); }
    ENDS(front) ENDS(back)
};
VC_SPEC(C13_ref_qualified) {
    El* const l = reinterpret_cast<El*>(0x10000); const El* const cl = reinterpret_cast<El*>(0x20000);
    El* const r = reinterpret_cast<El*>(0x30000); const El* const cr = reinterpret_cast<El*>(0x40000);
    Ref2 c{vc_nondet_u64(), l, cl, r, cr};
    const Ref2& cc = c;
    const u64 i = vc_nondet_u64();
    const bool in = i < c.n, some = c.n != 0;
#define PICK(C, P) ((C) ? (P) : nullptr)
    vc_cover("reached");
    ALT({ auto x = opt::at(c, i); REF(x, El&, PICK(in, l), "at") })
    ALT({ auto x = opt::at(cc, i); REF(x, const El&, PICK(in, cl), "at const") })
    ALT({ auto x = opt::at(std::move(c), i); REF(x, El&&, PICK(in, r), "at &&") })
    ALT({ auto x = opt::at(std::move(cc), i); REF(x, const El&&, PICK(in, cr), "at const &&") })
    ALT({ auto x = opt::at_front(c); REF(x, El&, PICK(some, l), "at_front") })
    ALT({ auto x = opt::at_front(cc); REF(x, const El&, PICK(some, cl), "at_front const") })
    ALT({ auto x = opt::at_front(std::move(c)); REF(x, El&&, PICK(some, r), "at_front &&") })
    ALT({ auto x = opt::at_front(std::move(cc)); REF(x, const El&&, PICK(some, cr), "at_front const &&") })
    ALT({ auto x = opt::at_back(c); REF(x, El&, PICK(some, l), "at_back") })
    ALT({ auto x = opt::at_back(cc); REF(x, const El&, PICK(some, cl), "at_back const") })
    ALT({ auto x = opt::at_back(std::move(c)); REF(x, El&&, PICK(some, r), "at_back &&") })
    ALT({ auto x = opt::at_back(std::move(cc)); REF(x, const El&&, PICK(some, cr), "at_back const &&") })
}
// front() and back() that yield values
struct Ends { u64 n; u32 a, b; std::size_t size() const { return n; } u32 front() const { vc_assert(n > 0, "front() of an empty container"); return a; } u32 back() const { vc_assert(n > 0, "back() of an empty container"); return b; } };
VC_SPEC(C13_ends_by_value) {
    const Ends c{vc_nondet_u64(), vc_nondet_u32(), vc_nondet_u32()};
    vc_cover("reached");
    auto f = opt::at_front(Ends(c));
    vc_assert(f.has_value() == (c.n != 0) && (c.n == 0 || *f == c.a), "at_front holds the value front() yields");
    auto b = opt::at_back(Ends(c));
    vc_assert(b.has_value() == (c.n != 0) && (c.n == 0 || *b == c.b), "at_back holds the value back() yields");
}
// --- abstract associative containers -----------------------------------------------------------------------------------
struct Key { u64 k; };
template<class E> struct Pair { const Key first; E second; };
inline u32 g_find = 0;
template<class E>
struct Map {                                                       // has mapped_type
    using mapped_type = E;
    Pair<E>* hit;                                                   // what find() returns; null is end()
    Pair<E>* endp;
    u64 key;
    Pair<E>* find(const Key& k) { ++g_find; vc_assert(k.k == key, "find gets the key"); return hit; }
    const Pair<E>* find(const Key& k) const { ++g_find; vc_assert(k.k == key, "find gets the key"); return hit; }
    Pair<E>* end() { return endp; }
    const Pair<E>* end() const { return endp; }
};
template<class E>
struct Set {
    const E* hit;
    const E* endp;
    u64 key;
    const E* find(const Key& k) const { ++g_find; vc_assert(k.k == key, "find gets the key"); return hit; }
    const E* end() const { return endp; }
};
template<class E>
void lookup_map() {
    using P = Pair<E>;
    P* const endp = static_cast<P*>(vc_nondet_ptr());
    P* const hit = static_cast<P*>(vc_nondet_ptr());
    Map<E> m{hit, endp, vc_nondet_u64()};
    const Map<E>& cm = m;
    const Key k{m.key};
    vc_assume(hit == endp || (reinterpret_cast<std::uintptr_t>(hit) >= 0x10000 && reinterpret_cast<std::uintptr_t>(hit) < 0x7fff00000000));   // an element lies at a real address
    E* const want = hit == endp ? nullptr : std::addressof(hit->second);
    vc_cover("reached");
    g_find = 0;
    if (want) { vc_cover("found"); } else { vc_cover("not found"); }
#define FOUND1 vc_assert(g_find == 1, "lookup searches exactly once");
    ALT({ auto r = opt::lookup(m, k); REF(r, E&, want, "lookup") FOUND1 })
    ALT({ auto r = opt::lookup(m, Key{m.key}); REF(r, E&, want, "lookup with an r-value key") FOUND1 })
    ALT({ auto r = opt::lookup(cm, k); REF(r, const E&, want, "lookup in a const container") FOUND1 })
}
VC_SPEC(C13_lookup_map_int) { lookup_map<u32>(); }
VC_SPEC(C13_lookup_map_el) { lookup_map<El>(); }
VC_SPEC(C13_lookup_map_bool) { lookup_map<bool>(); }
template<class E>
void lookup_set() {
    const E* const endp = static_cast<const E*>(vc_nondet_ptr());
    const E* const hit = static_cast<const E*>(vc_nondet_ptr());
    Set<E> m{hit, endp, vc_nondet_u64()};
    const Set<E>& cm = m;
    const Key k{m.key};
    vc_assume(hit == endp || (reinterpret_cast<std::uintptr_t>(hit) >= 0x10000 && reinterpret_cast<std::uintptr_t>(hit) < 0x7fff00000000));
    const E* const want = hit == endp ? nullptr : hit;
    vc_cover("reached");
    g_find = 0;
    ALT({ auto r = opt::lookup(m, k); REF(r, const E&, want, "lookup") FOUND1 })
    ALT({ auto r = opt::lookup(cm, k); REF(r, const E&, want, "lookup in a const container") FOUND1 })
}
VC_SPEC(C13_lookup_set_int) { lookup_set<u32>(); }
VC_SPEC(C13_lookup_set_el) { lookup_set<El>(); }
// --- pointers -------------------------------------------------------------------------------------------------------------
template<class T>
void nullable() {
    T* const p = static_cast<T*>(vc_nondet_ptr());
    vc_cover("reached");
    auto r = opt::from_nullable(p);
    REF(r, T&, p, "from_nullable")
    const T* const q = p;
    auto c = opt::from_nullable(q);
    REF(c, const T&, q, "from_nullable of a pointer to const")
}
VC_SPEC(C13_nullable_int) { nullable<u32>(); }
VC_SPEC(C13_nullable_el) { nullable<El>(); }
VC_SPEC(C13_nullable_ptr) { nullable<u32*>(); }
struct Thrower { Thrower() = default; Thrower(int) { throw 1; } Thrower(const Thrower&) {} };
// --- variants -----------------------------------------------------------------------------------------------------------------
template<std::size_t I, class E, class Var>
void var_index(Var& v, const void* p) {
    E* const want = v.index() == I ? static_cast<E*>(const_cast<void*>(p)) : nullptr;
    const Var& c = v;
    const std::size_t idx = v.index();
    ALT({ auto r = opt::get<I>(v); REF(r, E&, want, "get<I>(variant)") vc_assert(v.index() == idx, "the variant is not changed"); })
    ALT({ auto r = opt::get<I>(c); REF(r, const E&, want, "get<I>(const variant)") })
    ALT({ auto r = opt::get<I>(std::move(v)); REF(r, E&&, want, "get<I>(variant&&)") vc_assert(v.index() == idx, "the variant is not changed"); })
    ALT({ auto r = opt::get<I>(std::move(c)); REF(r, const E&&, want, "get<I>(const variant&&)") })
    ALT({ auto r = opt::get<E>(v); REF(r, E&, want, "get<T>(variant)") vc_assert(v.index() == idx, "the variant is not changed"); })
    ALT({ auto r = opt::get<E>(c); REF(r, const E&, want, "get<T>(const variant)") })
    ALT({ auto r = opt::get<E>(std::move(v)); REF(r, E&&, want, "get<T>(variant&&)") vc_assert(v.index() == idx, "the variant is not changed"); })
    ALT({ auto r = opt::get<E>(std::move(c)); REF(r, const E&&, want, "get<T>(const variant&&)") })
}
template<class A, class B, class C>
void variants() {
    using Var = std::variant<A, B, C>;
    const u32 x = vc_nondet_u32();
    Var v(std::in_place_index<0>, M<A>::make(x));
    if (vc_nondet_bool()) { v.template emplace<1>(M<B>::make(x)); } else if (vc_nondet_bool()) { v.template emplace<2>(M<C>::make(x)); }
    const void* const p = v.index() == 0 ? (const void*)std::get_if<0>(&v) : v.index() == 1 ? (const void*)std::get_if<1>(&v) : (const void*)std::get_if<2>(&v);
    const u32 m = g_ctor, d = g_dtor;
    vc_cover("reached");
    if (vc_nondet_bool()) { var_index<0, A>(v, p); } else if (vc_nondet_bool()) { var_index<1, B>(v, p); } else { var_index<2, C>(v, p); }
    vc_assert(g_ctor == m && g_dtor == d, "nothing is created, copied or destroyed");
}
VC_SPEC(C13_variant_scalars) { variants<u32, float, u32*>(); }
VC_SPEC(C13_variant_classes) { variants<Abs<1>, u8, Abs<2, 0, true, false>>(); }
VC_SPEC(C13_variant_valueless) {                                    // a variant that lost its value
    using Var = std::variant<u32, Thrower>;
    Var v(std::in_place_index<0>, 1u);
    try { v.emplace<1>(1); } catch (int) {}
    vc_assume(v.valueless_by_exception());
    vc_cover("reached");
    vc_assert(!opt::get<0>(v).has_value() && !opt::get<1>(v).has_value() && !opt::get<u32>(v).has_value() && !opt::get<Thrower>(v).has_value(), "no alternative of a valueless variant");
}
// --- standard containers -----------------------------------------------------------------------------------------------------
VC_SPEC(C13_std_array) {
    std::array<u32, 5> a;
    vc_havoc(&a, sizeof(a));
    const std::array<u32, 5>& c = a;
    const u64 i = vc_nondet_u64();
    vc_snap(&a, sizeof(a), 1);
    vc_cover("reached");
    u32* const want = i < 5 ? &a[i] : nullptr;
    u32* const f = &a[0];
    u32* const b = &a[4];
    { auto r = opt::at(a, i); REF(r, u32&, want, "at(array)") }
    { auto r = opt::at(c, i); REF(r, const u32&, want, "at(const array)") }
    { auto r = opt::at_front(a); REF(r, u32&, f, "at_front(array)") }
    { auto r = opt::at_back(c); REF(r, const u32&, b, "at_back(const array)") }
    vc_assert(vc_same(&a, sizeof(a), 1), "the container is not modified");
}
VC_SPEC(C13_std_string_view) {
    const u64 n = vc_nondet_u64(), i = vc_nondet_u64();
    const char* const p = static_cast<const char*>(vc_nondet_ptr());
    vc_assume(n < 0x1000000 && reinterpret_cast<std::uintptr_t>(p) >= 0x10000 && reinterpret_cast<std::uintptr_t>(p) < 0x7fff00000000);
    std::string_view s(p, n);
    vc_cover("reached");
    const char* const want = i < n ? p + i : nullptr;
    const char* const f = n ? p : nullptr;
    const char* const b = n ? p + n - 1 : nullptr;
    { auto r = opt::at(s, i); REF(r, const char&, want, "at(string_view)") }
    { auto r = opt::at_front(s); REF(r, const char&, f, "at_front(string_view)") }
    { auto r = opt::at_back(s); REF(r, const char&, b, "at_back(string_view)") }
}
VC_SPEC(C13_std_vector) {                                           // size up to 2 (the vector is built by its own operations)
    std::vector<u32> a;
    const bool one = vc_nondet_bool(), two = one && vc_nondet_bool();
    if (one) { a.push_back(vc_nondet_u32()); }
    if (two) { a.push_back(vc_nondet_u32()); }
    const u64 i = vc_nondet_u64();
    vc_cover("reached");
    u32* const want = i < a.size() ? &a[i] : nullptr;
    u32* const f = one ? a.data() : nullptr;
    u32* const b = one ? a.data() + a.size() - 1 : nullptr;
    { auto r = opt::at(a, i); REF(r, u32&, want, "at(vector)") }
    { auto r = opt::at_front(a); REF(r, u32&, f, "at_front(vector)") }
    { auto r = opt::at_back(a); REF(r, u32&, b, "at_back(vector)") }
}
