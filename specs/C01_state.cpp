// C01: engagement state machine
// vc-part: -DPART=1
// vc-part: -DPART=2
#if PART == 1
#include "abs.hpp"

template<class T>
void all_queries(const opt::option<T>& o, bool h, const char* l) {
    vc_assert(o.has_value() == h, l);
    vc_assert(static_cast<bool>(o) == h, l);
    vc_assert((o == opt::none) == !h, l);
    vc_assert((opt::none == o) == !h, l);
    vc_assert((o != opt::none) == h, l);
    vc_assert((opt::none != o) == h, l);
}

template<class T>
void construct_empty() {
    using O = opt::option<T>;
    vc_cover("reached");
    {
        O a;
        all_queries(a, false, "default-constructed option is empty");
        O b{};
        all_queries(b, false, "value-initialised option is empty");
        O c(opt::none);
        all_queries(c, false, "option constructed from none is empty");
        O d = opt::none;
        all_queries(d, false, "option copy-initialised from none is empty");
    }
    alignas(O) unsigned char buf[sizeof(O)];
    vc_havoc(buf, sizeof buf);                     // construction does not depend on what the storage held
    O* p = ::new (static_cast<void*>(buf)) O;
    all_queries(*p, false, "option constructed in dirty storage is empty");
    p->~O();
    vc_havoc(buf, sizeof buf);
    p = ::new (static_cast<void*>(buf)) O(opt::none);
    all_queries(*p, false, "option constructed from none in dirty storage is empty");
    p->~O();
}
template<class T>
void construct_value() {
    using O = opt::option<T>;
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
    vc_cover("reached");
    {
        O a(M<T>::make(x));
        all_queries(a, true, "option constructed from a value is engaged");
        vc_assert(is_val(a, e), "option constructed from a value holds that value");
        O b(std::in_place, M<T>::make(x));
        all_queries(b, true, "option constructed in place is engaged");
        vc_assert(is_val(b, e), "option constructed in place holds that value");
        if constexpr (std::is_copy_constructible_v<T>) {
            const T t = M<T>::make(x);
            O c{t};
            vc_assert(is_val(c, e), "option constructed from an l-value holds that value");
            O d = t;
            vc_assert(is_val(d, e), "option copy-initialised from an l-value holds that value");
        }
    }
    alignas(O) unsigned char buf[sizeof(O)];
    vc_havoc(buf, sizeof buf);
    O* p = ::new (static_cast<void*>(buf)) O(M<T>::make(x));
    all_queries(*p, true, "option constructed in dirty storage is engaged");
    vc_assert(is_val(*p, e), "option constructed in dirty storage holds the value");
    p->~O();
}
template<class T>
void construct_args() {
    using O = opt::option<T>;
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    const u64 e = u32(vc_uf(UF_CTOR2, x.x, y.x));
    vc_cover("reached");
    O a(x, y);
    vc_assert(is_val(a, e) && how(a) == BUILT2, "option(args...) constructs T(args...) in place");
    O b(std::in_place, x, y);
    vc_assert(is_val(b, e) && how(b) == BUILT2, "option(in_place, args...) constructs T(args...) in place");
    O c(std::in_place, x);
    vc_assert(is_val(c, x.x) && how(c) == BUILT, "option(in_place, arg) constructs T(arg) in place");
    if constexpr (std::is_copy_constructible_v<T>) {
        const u64 el = u32(vc_uf(UF_LIST, x.x + 2, y.x));
        O d(std::in_place, {x, y}, y);
        vc_assert(is_val(d, el) && how(d) == BUILTL, "option(in_place, list, args...) constructs T(list, args...)");
        a.reset();
        a.emplace(std::initializer_list<V>{x, y}, y);
        vc_assert(is_val(a, el) && how(a) == BUILTL, "emplace(list, args...) constructs T(list, args...)");
    }
}
template<class T>
void emplace_args() {
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    const u64 e = u32(vc_uf(UF_CTOR2, x.x, y.x));
    Arb<T> s;
    vc_cover("reached");
    T& r = s.o.emplace(x, y);
    vc_assert(is_val(s.o, e) && how(s.o) == BUILT2 && std::addressof(r) == std::addressof(s.o.get_unchecked()), "emplace(args...) constructs T(args...) in place");
    s.destroy();
    Arb<T> t;
    T& q = t.o.try_emplace(x, y);
    vc_assert(is_val(t.o, t.h ? t.v : e) && std::addressof(q) == std::addressof(t.o.get_unchecked()), "try_emplace(args...) constructs T(args...) only when empty");
    t.destroy();
}
template<class T>
void to_empty() {
    using O = opt::option<T>;
    vc_cover("reached");
    {
        Arb<T> s;
        all_queries(s.o, s.h, "queries agree");
        s.o.reset();
        all_queries(s.o, false, "reset empties the option");
        s.o.reset();
        all_queries(s.o, false, "reset is idempotent");
        s.destroy();
    }
    {
        Arb<T> s;
        O& r = (s.o = opt::none);
        all_queries(s.o, false, "assignment from none empties the option");
        vc_assert(&r == &s.o, "assignment from none returns the option");
        s.destroy();
    }
    {
        Arb<T> s;
        s.o = O{};
        all_queries(s.o, false, "assignment from an empty option empties the option");
        s.destroy();
    }
}
template<class T>
void to_value() {
    using O = opt::option<T>;
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
    vc_cover("reached");
    {
        Arb<T> s;
        O& r = (s.o = M<T>::make(x));
        all_queries(s.o, true, "assignment from a value engages the option");
        vc_assert(is_val(s.o, e), "assignment from a value stores that value");
        vc_assert(&r == &s.o, "assignment returns the option");
        s.destroy();
    }
    if constexpr (std::is_copy_constructible_v<T>) {
        Arb<T> s;
        const T t = M<T>::make(x);
        s.o = t;
        all_queries(s.o, true, "assignment from an l-value engages the option");
        vc_assert(is_val(s.o, e), "assignment from an l-value stores that value");
        vc_assert(M<T>::val(t) == e, "assignment leaves the source value alone");
        s.destroy();
    }
    {
        Arb<T> s;
        T& r = s.o.emplace(M<T>::make(x));
        all_queries(s.o, true, "emplace engages the option");
        vc_assert(is_val(s.o, e) && std::addressof(r) == std::addressof(s.o.get_unchecked()), "emplace stores the value and returns it");
        s.destroy();
    }
    {
        Arb<T> s;
        T& r = s.o.try_emplace(M<T>::make(x));
        all_queries(s.o, true, "try_emplace leaves the option engaged");
        vc_assert(is_val(s.o, s.h ? s.v : e), "try_emplace stores the value only into an empty option");
        vc_assert(std::addressof(r) == std::addressof(s.o.get_unchecked()), "try_emplace returns the contained value");
        s.destroy();
    }
}
// a value assigned to an engaged option goes through T's own assignment, one assigned to an empty option through T's
// own construction
template<class T>
void assign_how() {
    const V x{vc_nondet_u32()};
    Arb<T> s;
    vc_cover("reached");
    ALT({ s.o = x; vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_vassign<T>(s.h), "assignment from a convertible value assigns or constructs T from it"); s.destroy(); })
    ALT({ { T t(x); s.o = std::move(t); vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_massign<T>(s.h, BUILT), "assignment from an r-value moves it"); } s.destroy(); })
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { const T t(x); s.o = t; vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_cassign<T>(s.h, BUILT) && t.v == x.x, "assignment from a const l-value copies it"); } s.destroy(); })
        ALT({ { T t(x); s.o = t; vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_cassign<T>(s.h, BUILT) && t.v == x.x, "assignment from an l-value copies it"); } s.destroy(); })
    }
    ALT({ s.o = {}; vc_assert(!s.o.has_value(), "assignment from {} empties the option"); s.destroy(); })
    s.destroy();
}
// two-step histories: the state after an operation is again a legal starting state
template<class T>
void history() {
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
    Arb<T> s;
    vc_cover("reached");
    s.o.reset();
    s.o = M<T>::make(x);
    vc_assert(is_val(s.o, e), "value assigned after reset is held");
    s.o = opt::none;
    s.o.emplace(M<T>::make(x));
    vc_assert(is_val(s.o, e), "value emplaced after assignment from none is held");
    s.o.reset();
    s.o.try_emplace(M<T>::make(x));
    vc_assert(is_val(s.o, e), "try_emplace after reset stores the value");
    s.o = opt::option<T>{};
    vc_assert(!s.o.has_value(), "empty again");
    s.destroy();
}

#define INST(NAME, ...)                                                    \
    VC_SPEC(C01_empty_##NAME) { construct_empty<__VA_ARGS__>(); }          \
    VC_SPEC(C01_value_##NAME) { construct_value<__VA_ARGS__>(); }          \
    VC_SPEC(C01_to_empty_##NAME) { to_empty<__VA_ARGS__>(); }              \
    VC_SPEC(C01_to_value_##NAME) { to_value<__VA_ARGS__>(); }              \
    VC_SPEC(C01_history_##NAME) { history<__VA_ARGS__>(); }
#define INSTA(NAME, ...)                                                   \
    VC_SPEC(C01_how_##NAME) { assign_how<__VA_ARGS__>(); }                 \
    VC_SPEC(C01_args_##NAME) { construct_args<__VA_ARGS__>(); }            \
    VC_SPEC(C01_emplace_args_##NAME) { emplace_args<__VA_ARGS__>(); }
FAM_ALL(INST)
FAM_OPT(INST)
INST(triv5, Triv<5>)
INST(triv10, Triv<10>)
INSTA(abs, Abs<1>)
INSTA(abs_traits3, Abs<1, 3>)
INSTA(moveonly, Abs<1, 0, true, false>)
INSTA(ta, AbsTA<1>)
FAM_TRIV_ALL(INSTA)
FAM_TRIV_ALL_T(INSTA)
INSTA(mo_t1, Abs<1, 1, true, false>)
INSTA(ta_t2, AbsTA<1, 2>)
FAM_HOS(INSTA)

// aggregates: the members are initialised from the arguments in order, the rest as by T{args...}
struct AgPod { u32 a; u16 b; };                                     // no reserved representations
struct AgBool { u32 a; bool b; };                                   // reserved representations of a member
struct AgTail { bool b; u32 a; };
template<class B> struct AgObj { u32 a; B b; };                      // a tracked member
struct AgDef { u32 a = 5; u16 b = 6; };                             // default member initialisers
struct AgNest { AgPod p; u32 c; };
template<class A, class B> bool has(const opt::option<A>& o, u32 a, B b) { return o.has_value() && o.get_unchecked().a == a && o.get_unchecked().b == b; }
template<class A>
void aggregate() {
    using O = opt::option<A>;
    const u32 x = vc_nondet_u32();
    const auto y = static_cast<decltype(A::b)>(std::is_same_v<decltype(A::b), bool> ? (vc_nondet_u32() & 1) : vc_nondet_u32());
    const A z = A{};                                                // what missing members become
    alignas(O) unsigned char buf[sizeof(O)];
    vc_havoc(buf, sizeof buf);
    ALT({ O* p = ::new (static_cast<void*>(buf)) O(std::in_place); vc_assert(has(*p, z.a, z.b), "constructed in place from nothing: every member as in T{}"); })
    ALT({ O* p = ::new (static_cast<void*>(buf)) O(std::in_place, A{x, y}); vc_assert(has(*p, x, y), "constructed in place from an object"); })
    ALT({ O* p = ::new (static_cast<void*>(buf)) O(A{x, y}); vc_assert(has(*p, x, y), "constructed from an object"); })
    ALT({ O* p = ::new (static_cast<void*>(buf)) O(std::in_place, x, y); vc_assert(has(*p, x, y), "constructed in place from the members"); })
    ALT({ O* p = ::new (static_cast<void*>(buf)) O(std::in_place, x); vc_assert(has(*p, x, z.b), "constructed in place from a prefix of the members"); })
    ALT({ auto r = opt::option<u32>{x}.map([&](u32 v) { return A{v, y}; }); vc_assert(has(r, x, y), "the result of a mapped function"); })
    O& o = *(vc_nondet_bool() ? ::new (static_cast<void*>(buf)) O() : ::new (static_cast<void*>(buf)) O(A{7, decltype(A::b)(1)}));
    const bool h = o.has_value();
    vc_cover("reached");
    ALT({ A& r = o.emplace(x, y); vc_assert(has(o, x, y) && &r == &o.get_unchecked(), "emplace with the members"); })
    ALT({ A& r = o.emplace(x); vc_assert(has(o, x, z.b) && &r == &o.get_unchecked(), "emplace with a prefix of the members"); })
    ALT({ o.emplace(); vc_assert(has(o, z.a, z.b), "emplace without arguments"); })
    ALT({ o.emplace(A{x, y}); vc_assert(has(o, x, y), "emplace with an object"); })
    ALT({ o = A{x, y}; vc_assert(has(o, x, y), "assignment of an object"); })
    ALT({ o = {x, y}; vc_assert(has(o, x, y), "assignment of a braced list"); })
    ALT({ o.try_emplace(x, y); vc_assert(h ? has(o, 7u, decltype(A::b)(1)) : has(o, x, y), "try_emplace with the members"); })
    ALT({ const A r = o.value_or_construct(x, y); vc_assert(h ? r.a == 7 && r.b == decltype(A::b)(1) : r.a == x && r.b == y, "value_or_construct with the members"); })
    ALT({ const A r = o.value_or_construct(x); vc_assert(h ? r.a == 7 && r.b == decltype(A::b)(1) : r.a == x && r.b == z.b, "value_or_construct with a prefix of the members"); })
    ALT({ const A r = std::move(o).value_or_construct(); vc_assert(h ? r.a == 7 && r.b == decltype(A::b)(1) : r.a == z.a && r.b == z.b, "value_or_construct without arguments"); })
    ALT({ const A r = o.value_or(A{x, y}); vc_assert(h ? r.a == 7 && r.b == decltype(A::b)(1) : r.a == x && r.b == y, "value_or"); })
}
VC_SPEC(C01_forwarding) {                                           // in-place operations pass their arguments on with their value categories
    using O = opt::option<Fwd>;
    const bool h = vc_nondet_bool();
    vc_cover("reached");
    auto any = [h] { O o; if (h) { o.emplace(Arg{9}); } return o; };
    forwards1(0, "emplace(a) forwards", [&](auto&& a) { O o = any(); Fwd& r = o.emplace(FWD(a)); vc_assert(&r == o.ptr_or_null(), "emplace yields the contained object"); return r; });
    forwards2("emplace(a, b) forwards", [&](auto&& a, auto&& b) { O o = any(); return o.emplace(FWD(a), FWD(b)); });
    forwards1(0, "try_emplace(a) forwards", [](auto&& a) { O o; return o.try_emplace(FWD(a)); });
    forwards2("try_emplace(a, b) forwards", [](auto&& a, auto&& b) { O o; return o.try_emplace(FWD(a), FWD(b)); });
    const std::initializer_list<Arg> l{Arg{1}, Arg{2}};
    forwards_list("emplace({...}, a) forwards", [&](auto&& b) { O o = any(); return o.emplace(l, FWD(b)); });
    forwards_list("try_emplace({...}, a) forwards", [&](auto&& b) { O o; return o.try_emplace(l, FWD(b)); });
    forwards1(h ? 16 : 0, "assignment from a value forwards", [&](auto&& a) { O o = any(); o = FWD(a); return o.get(); });
}
VC_SPEC(C01_aggregate_pod) { aggregate<AgPod>(); }
VC_SPEC(C01_aggregate_bool) { aggregate<AgBool>(); }
VC_SPEC(C01_aggregate_def) { aggregate<AgDef>(); }
VC_SPEC(C01_aggregate_tail) {
    using O = opt::option<AgTail>;
    const u32 x = vc_nondet_u32(); const bool y = vc_nondet_bool();
    ALT({ O o{std::in_place, y, x}; vc_assert(has(o, x, y), "constructed in place from the members"); })
    ALT({ O o; o.emplace(y); vc_assert(has(o, 0u, y), "emplace with a prefix of the members"); })
    vc_cover("reached");
}
VC_SPEC(C01_aggregate_nested) {
    using O = opt::option<AgNest>;
    const u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    O o;
    o.emplace(AgPod{x, u16(y)}, y);
    vc_assert(o.has_value() && o->p.a == x && o->p.b == u16(y) && o->c == y, "emplace with the members of a nested aggregate");
    vc_cover("reached");
}
template<class B>
void aggregate_tracked() {
    using A = AgObj<B>;
    using O = opt::option<A>;
    const V y{vc_nondet_u32()};
    const u32 x = vc_nondet_u32();
    {
        O o;
        if (vc_nondet_bool()) { o.emplace(3u, V{4}); }
        const bool h = o.has_value();
        vc_cover("reached");
        if (vc_nondet_bool()) {
            A& r = o.emplace(x, y);
            vc_assert(o.has_value() && o->a == x && o->b.v == y.x && o->b.how == BUILT && &r == &o.get_unchecked(), "emplace builds the members in place");
        } else if (vc_nondet_bool()) {
            o.try_emplace(x, y);
            vc_assert(o.has_value() && o->a == (h ? 3 : x) && o->b.v == (h ? 4 : y.x) && o->b.how == BUILT, "try_emplace builds the members in place when empty");
        } else if (vc_nondet_bool()) {
            O p{std::in_place, x, y};
            vc_assert(p.has_value() && p->a == x && p->b.v == y.x && p->b.how == BUILT, "in-place construction builds the members in place");
        } else if (vc_nondet_bool()) {
            O p = opt::option<u32>{x}.map([&](u32 v) { return A{v, y}; });
            vc_assert(p.has_value() && p->a == x && p->b.v == y.x && p->b.how == BUILT, "the result of a mapped function is built in place");
        } else if (vc_nondet_bool()) {
            B m{y};
            O p{std::in_place, x, static_cast<B&&>(m)};
            vc_assert(p.has_value() && p->a == x && p->b.v == y.x && (!M<B>::tracked || std::is_trivially_move_constructible_v<B> || p->b.how == MOVED), "members are initialised from r-values by moving them");
        } else if (vc_nondet_bool()) {
            B m{y};
            o.emplace(x, static_cast<B&&>(m));
            vc_assert(o.has_value() && o->a == x && o->b.v == y.x && (!M<B>::tracked || std::is_trivially_move_constructible_v<B> || o->b.how == MOVED), "emplace moves r-values into the members");
        } else {
            o = A{x, y};
            vc_assert(o.has_value() && o->a == x && o->b.v == y.x && (!M<B>::tracked || std::is_trivially_move_assignable_v<B> || o->b.how == (h ? MASSIGNED : MOVED)), "assignment of an object moves it");
        }
        vc_assert(live(1) == (o.has_value() ? 1 : 0), "exactly the contained members live");
    }
    vc_assert(live(1) == 0, "everything is destroyed");
}
VC_SPEC(C01_aggregate_abs) { aggregate_tracked<Abs<1>>(); }
VC_SPEC(C01_aggregate_abs_t2) { aggregate_tracked<Abs<1, 2>>(); }
VC_SPEC(C01_aggregate_mo) { aggregate_tracked<Abs<1, 0, true, false>>(); }
VC_SPEC(C01_aggregate_mo_t1) { aggregate_tracked<Abs<1, 1, true, false>>(); }
VC_SPEC(C01_aggregate_ta_t2) { aggregate_tracked<AbsTA<1, 2>>(); }

// const elements: can be created, read and destroyed, never assigned
template<class T>
void const_element() {
    using O = opt::option<const T>;
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
    vc_cover("reached");
    const u32 l0 = live(1);
    {
        Arb<const T> s;
        all_queries(s.o, s.h, "queries agree");
        const u32 n0 = live(1);
        if (vc_nondet_bool()) {
            s.o.reset();
            all_queries(s.o, false, "reset empties the option");
            s.o.reset();
            all_queries(s.o, false, "reset is idempotent");
            vc_assert(n0 - live(1) == (s.h && M<T>::tracked ? 1u : 0u), "the element is destroyed");
        } else if (vc_nondet_bool()) {
            O& r = (s.o = opt::none);
            all_queries(s.o, false, "assignment from none empties the option");
            vc_assert(&r == &s.o, "assignment returns the option");
        } else if (vc_nondet_bool()) {
            const T& r = s.o.emplace(M<T>::make(x));
            all_queries(s.o, true, "emplace engages the option");
            vc_assert(is_val(s.o, e) && std::addressof(r) == std::addressof(s.o.get_unchecked()), "emplace stores the value and returns it");
            s.o.reset();
            s.o.emplace(M<T>::make(x));
            vc_assert(is_val(s.o, e), "a value emplaced after reset is held");
        } else if (vc_nondet_bool()) {
            const T& r = s.o.try_emplace(M<T>::make(x));
            all_queries(s.o, true, "try_emplace leaves the option engaged");
            vc_assert(is_val(s.o, s.h ? s.v : e) && std::addressof(r) == std::addressof(s.o.get_unchecked()), "try_emplace stores the value only into an empty option");
        } else if constexpr (std::is_copy_constructible_v<T>) {
            if (vc_nondet_bool()) {
                O c(s.o);
                all_queries(c, s.h, "a copy is engaged exactly when its source is");
                vc_assert(is_state(c, s.h, s.v) && is_state(s.o, s.h, s.v), "a copy holds the value, the source keeps it");
            } else if (vc_nondet_bool()) {
                O c(std::move(s.o));
                vc_assert(is_state(c, s.h, s.v) && is_state(s.o, s.h, s.v), "a const element is copied even from an r-value, the source keeps it");
            } else if (vc_nondet_bool()) {
                opt::option<T> c(s.o);
                vc_assert(is_state(c, s.h, s.v) && is_state(s.o, s.h, s.v), "an option of the mutable type holds a copy");
            } else if (vc_nondet_bool()) {
                Arb<T> t;
                t.o = s.o;
                vc_assert(is_state(t.o, s.h, s.v) && is_state(s.o, s.h, s.v), "assigned to an option of the mutable type it is copied");
                t.destroy();
            } else if (vc_nondet_bool()) {
                Arb<T> t;
                {
                    O c(t.o);
                    vc_assert(is_state(c, t.h, t.v) && is_state(t.o, t.h, t.v), "an option of the const type holds a copy");
                }
                t.destroy();
            } else {
                Arb<T> t;
                {
                    O c(std::move(t.o));
                    vc_assert(is_state(c, t.h, t.v), "an option of the const type holds the moved value");
                }
                t.destroy();
            }
        }
        s.destroy();
    }
    vc_assert(live(1) == l0, "every element is destroyed exactly once");
}
#define INSTC(NAME, ...)                                                         \
    VC_SPEC(C01_const_empty_##NAME) { construct_empty<std::add_const_t<__VA_ARGS__>>(); }    \
    VC_SPEC(C01_const_value_##NAME) { construct_value<std::add_const_t<__VA_ARGS__>>(); }    \
    VC_SPEC(C01_const_##NAME) { const_element<__VA_ARGS__>(); }
FAM_ALL(INSTC)
#else
// the same state machine over the library's own size-optimised element types (every legitimate value of each)
#include "libstate.hpp"
#define I(N, ...) VC_SPEC(C01_lib_##N) { values<__VA_ARGS__>(); }
TYPES(I) FLAG_TYPES(I)
#undef I
template char* std::basic_string<char>::_M_create(std::size_t&, std::size_t);   // not left to libstdc++.so
VC_SPEC(C01_lib_string) { string_any_length<std::string>(); }
VC_SPEC(C01_lib_string_empty) { string_empty<std::string>(); }
VC_SPEC(C01_lib_unique) { unique<std::unique_ptr<int>>([](u32 x) { return std::unique_ptr<int>(new int(int(x))); }, [](const std::unique_ptr<int>& p) { return u32(*p); }); }
VC_SPEC(C01_lib_vector) { vectors<std::vector<int>>([](u32 x) { return std::vector<int>{int(x), 2}; }); }
VC_SPEC(C01_lib_polymorphic) { polymorphic<Poly>([](const Poly& p) { return p.x; }, 1); }
#endif
