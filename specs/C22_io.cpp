// C22: streaming helpers read and write exactly the contained value
#include "abs.hpp"

// an arbitrary stream: records what it was asked to write and into which object it was asked to read
struct Stream {
    u32 writes = 0, reads = 0;
    const void* wrote = nullptr;
    void* read = nullptr;
    u64 value = 0;
    u32 got = 0;
};
struct Alt { u32 a; };                                              // the alternative: an unrelated type
template<class T, class = decltype(M<T>::tracked)> Stream& operator<<(Stream& s, const T& x) { ++s.writes; s.wrote = &x; s.value = M<T>::val(x); vc_assert(M<T>::ok(x), "only a live value is written"); return s; }
template<class T, class = decltype(M<T>::tracked)> Stream& operator>>(Stream& s, T& x) { ++s.reads; s.read = const_cast<void*>(static_cast<const volatile void*>(&x)); vc_assert(M<T>::ok(x), "only a live value is read into"); x = M<T>::make(s.got); return s; }
Stream& operator<<(Stream& s, const Alt& x) { ++s.writes; s.wrote = &x; s.value = x.a; return s; }
Stream& operator>>(Stream& s, Alt& x) { ++s.reads; s.read = &x; x.a = s.got; return s; }

template<class T>
void streams() {
    Arb<T> a;
    Stream s;
    s.got = vc_nondet_u32();
    Alt alt{vc_nondet_u32()};
    const u32 alt0 = alt.a;
    vc_cover("reached");
    if (a.h) { vc_cover("engaged"); } else { vc_cover("empty"); }
    const void* const p = a.o.ptr_or_null();
    const bool h = a.h;
    ALT({ Stream& r = s << opt::io(a.o); vc_assert(&r == &s && s.writes == (h ? 1 : 0) && s.wrote == p && (!h || s.value == a.v) && s.reads == 0, "io(x) writes exactly the contained value, or nothing"); vc_assert(is_state(a.o, h, a.v), "writing changes nothing"); a.destroy(); })
    ALT({ Stream& r = s << opt::io(std::as_const(a.o)); vc_assert(&r == &s && s.writes == (h ? 1 : 0) && s.wrote == p && (!h || s.value == a.v) && s.reads == 0, "io(const x) writes exactly the contained value, or nothing"); vc_assert(is_state(a.o, h, a.v), "writing changes nothing"); a.destroy(); })
    ALT({ Stream& r = s << opt::io(a.o, alt); vc_assert(&r == &s && s.writes == 1 && s.reads == 0 && s.wrote == (h ? p : &alt) && s.value == (h ? a.v : alt0), "io(x, alt) writes exactly the value or exactly the alternative"); vc_assert(is_state(a.o, h, a.v) && alt.a == alt0, "writing changes nothing"); a.destroy(); })
    ALT({ Stream& r = s << opt::io(std::as_const(a.o), std::as_const(alt)); vc_assert(&r == &s && s.writes == 1 && s.reads == 0 && s.wrote == (h ? p : &alt) && s.value == (h ? a.v : alt0), "io(const x, const alt) writes exactly the value or exactly the alternative"); vc_assert(is_state(a.o, h, a.v) && alt.a == alt0, "writing changes nothing"); a.destroy(); })
    ALT({ Stream& r = s >> opt::io(a.o, alt); vc_assert(&r == &s && s.reads == 1 && s.writes == 0 && s.read == (h ? p : &alt), "reading stores into the value or the alternative");
          vc_assert(a.o.has_value() == h, "reading never changes the engagement"); if (h) { vc_assert(is_val(a.o, M<T>::lift(s.got)) && alt.a == alt0, "the value read is held"); } else { vc_assert(alt.a == s.got, "the alternative receives the value read"); } a.destroy(); })
    ALT({ s << opt::io(a.o) << opt::io(a.o, alt); vc_assert(s.writes == (h ? 2 : 1), "writes chain"); a.destroy(); })
    a.destroy();
}
#define I1(NAME, ...) VC_SPEC(C22_##NAME) { streams<__VA_ARGS__>(); }
I1(int, u32) I1(byte, u8) I1(pod, Pod) I1(bool, bool) I1(ptr, u32*)
I1(abs, Abs<1>) I1(abs_t1, Abs<1, 1>) I1(abs_t3, Abs<1, 3>) I1(ta, AbsTA<1>) I1(ta_t2, AbsTA<1, 2>) I1(mo_t1, Abs<1, 1, true, false>) I1(triv15, Triv<15>) I1(triv15_t2, Triv<15, 2>)
VC_SPEC(C22_reference) {
    u32 x = vc_nondet_u32();
    const u32 x0 = x;
    opt::option<u32&> o;
    const bool h = vc_nondet_bool();
    if (h) { o = x; }
    Stream s;
    s.got = vc_nondet_u32();
    Alt alt{7};
    vc_cover("reached");
    ALT({ s << opt::io(o); vc_assert(s.writes == (h ? 1 : 0) && s.wrote == (h ? &x : nullptr) && x == x0, "writes the referent itself"); })
    ALT({ s << opt::io(o, alt); vc_assert(s.writes == 1 && s.wrote == (h ? static_cast<const void*>(&x) : &alt) && x == x0, "writes the referent or the alternative"); })
    ALT({ s >> opt::io(o, alt); vc_assert(s.reads == 1 && s.read == (h ? static_cast<void*>(&x) : &alt) && x == (h ? s.got : x0) && o.has_value() == h, "reads into the referent or the alternative"); })
}
VC_SPEC(C22_same_alternative) {                                     // the alternative has the element's type
    Arb<u32> a;
    u32 alt = vc_nondet_u32();
    const u32 alt0 = alt;
    Stream s;
    s.got = vc_nondet_u32();
    vc_cover("reached");
    const void* const p = a.o.ptr_or_null();
    ALT({ s << opt::io(a.o, alt); vc_assert(s.writes == 1 && s.wrote == (a.h ? p : &alt) && s.value == (a.h ? a.v : alt0), "writes the value or the alternative"); })
    ALT({ s >> opt::io(a.o, alt); vc_assert(s.reads == 1 && s.read == (a.h ? p : &alt) && a.o.has_value() == a.h && alt == (a.h ? alt0 : s.got), "reads into the value or the alternative"); })
}
// The stream may itself change the option while it writes or reads: exactly one object is written or read, chosen by the state before the operation.
struct Reentrant {
    opt::option<Pod>* o;
    bool engage;
    u32 value = 0, alts = 0;
    void poke() { if (engage) { *o = Pod{1, 2}; } else { o->reset(); } }
};
Reentrant& operator<<(Reentrant& s, const Pod&) { ++s.value; s.poke(); return s; }
Reentrant& operator>>(Reentrant& s, Pod&) { ++s.value; s.poke(); return s; }
Reentrant& operator<<(Reentrant& s, const Alt&) { ++s.alts; s.poke(); return s; }
Reentrant& operator>>(Reentrant& s, Alt&) { ++s.alts; s.poke(); return s; }
VC_SPEC(C22_reentrant) {
    Arb<Pod> a;
    Alt alt{vc_nondet_u32()};
    Reentrant s{&a.o, vc_nondet_bool()};
    vc_cover("reached");
    const bool h = a.h;
    ALT({ s << opt::io(a.o); vc_assert(s.value == (h ? 1u : 0u) && s.alts == 0, "exactly the value is written, once"); })
    ALT({ s << opt::io(std::as_const(a.o), std::as_const(alt)); vc_assert(s.value == (h ? 1u : 0u) && s.alts == (h ? 0u : 1u), "exactly one of the value and the alternative is written (const)"); })
    ALT({ s << opt::io(a.o, alt); vc_assert(s.value == (h ? 1u : 0u) && s.alts == (h ? 0u : 1u), "exactly one of the value and the alternative is written"); })
    ALT({ s >> opt::io(a.o, alt); vc_assert(s.value == (h ? 1u : 0u) && s.alts == (h ? 0u : 1u), "exactly one of the value and the alternative is read into"); })
}
