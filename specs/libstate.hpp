// options of the library's own size-optimised element types: states and values (instantiated by C04 and C01)
#pragma once
#include "traits_contract.hpp"

// trivially copyable element types: the option holds every legitimate representation, through every way in
template<class T>
bool holds(const opt::option<T>& o, const Id& e) {
    return o.has_value() && Legit<T>::id(&o.get_unchecked()) == e && Legit<T>::id(&*o) == e;
}
template<class T>
void values() {
    using O = opt::option<T>;
    Raw<T> x;
    Legit<T>::make(x.b);
    const Id e = Legit<T>::id(x.b);
    const T& v = *x.p();
    vc_cover("reached");
    ALT({
        O a(v);
        vc_assert(holds(a, e), "a value passed to the constructor is held unchanged");
        O b(std::in_place, v);
        vc_assert(holds(b, e), "a value constructed in place is held unchanged");
        O c(a);
        vc_assert(holds(c, e), "a copied option holds the value unchanged");
        O d(static_cast<O&&>(c));
        vc_assert(holds(d, e), "a moved option holds the value unchanged");
    })
    ALT({
        O a;
        vc_assert(!a.has_value(), "a default-constructed option is empty");
        a = v;
        vc_assert(holds(a, e), "an assigned value is held unchanged");
        a.reset();
        vc_assert(!a.has_value() && a == opt::none, "a reset option is empty");
        a.emplace(v);
        vc_assert(holds(a, e), "an emplaced value is held unchanged");
        a = opt::none;
        vc_assert(!a.has_value(), "an option assigned none is empty");
        O b(v);
        a = b;
        vc_assert(holds(a, e), "an assigned option's value is held unchanged");
        b = O{};
        vc_assert(!b.has_value(), "an option assigned an empty option is empty");
    })
    ALT({
        O a(v);
        Raw<T> y;
        Legit<T>::make(y.b);
        const Id f = Legit<T>::id(y.b);
        a = *y.p();
        vc_assert(holds(a, f), "an engaged option takes the new value unchanged");
        a.get() = v;
        vc_assert(holds(a, e), "a value written through the accessor is held unchanged");
        const T w = a.value_or(*y.p());
        vc_assert(Legit<T>::id(&w) == e, "value_or returns the value");
        a.emplace(*y.p());
        vc_assert(holds(a, f), "a value emplaced over another is held unchanged");
        O g = a.take();
        vc_assert(!a.has_value() && holds(g, f), "take moves the value out and leaves nothing");
    })
    ALT({
        alignas(O) unsigned char buf[sizeof(O)];
        vc_havoc(buf, sizeof buf);
        O* p = ::new (static_cast<void*>(buf)) O;
        vc_assert(!p->has_value(), "an option constructed in dirty storage is empty");
        p = ::new (static_cast<void*>(buf)) O(v);
        vc_assert(holds(*p, e), "a value constructed in dirty storage is held unchanged");
    })
}
template<class T>
void unequal() {                                                     // for types with ==
    opt::option<T> e;
    Raw<T> x;
    Legit<T>::make(x.b);
    vc_cover("reached");
    vc_assert(!(e == *x.p()) && e != *x.p() && !(*x.p() == e), "an empty option is equal to no value");
    opt::option<T> o(*x.p());
    vc_assert(!(e == o) && !(o == e) && e != o && o != opt::none, "an empty option is equal to no engaged option");
    vc_assert(e == opt::option<T>{}, "two empty options are equal");
}

// --- unique_ptr: every owner, including null ---------------------------------------------------------------------------
template<class U>
void unique(U (*mk)(u32), u32 (*rdv)(const U&)) {
    using O = opt::option<U>;
    const u32 x = vc_nondet_u32();
    vc_cover("reached");
    ALT({
        O o{U{}};
        vc_assert(o.has_value() && o->get() == nullptr, "a null owner is a value");
        O n;
        vc_assert(!n.has_value(), "a default-constructed option is empty");
        n = U{};
        vc_assert(n.has_value() && n->get() == nullptr, "an assigned null owner is a value");
        n.reset();
        vc_assert(!n.has_value() && n != o, "an empty option differs from one that holds a null owner");
    })
    ALT({
        U u = mk(x);
        auto* raw = u.get();
        O o(static_cast<U&&>(u));
        vc_assert(o.has_value() && o->get() == raw && rdv(*o) == x, "the owner is held");
        vc_assert(u.get() == nullptr, "ownership was transferred once");
        O p(static_cast<O&&>(o));
        vc_assert(p.has_value() && p->get() == raw && o.has_value() && o->get() == nullptr, "ownership moves between options");
        O q;
        q = static_cast<O&&>(p);
        vc_assert(q.has_value() && q->get() == raw && rdv(*q) == x, "ownership moves to an empty option");
        U back = static_cast<U&&>(*q);
        vc_assert(back.get() == raw && q.has_value() && q->get() == nullptr, "the owner can be moved out");
        q.reset();
        vc_assert(!q.has_value(), "reset");
    })
}

// --- strings: every length in the local buffer, and on the heap --------------------------------------------------------
template<class S>
void string_local() {
    using C = typename S::value_type;
    using O = opt::option<S>;
    constexpr u32 cap = 15 / sizeof(C);
    S s;                                                             // local
    const u64 n = vc_nondet_u64();
    vc_assume(n <= cap);
    wr<u64>(&s, 8, n);
    C* d = const_cast<C*>(s.data());
    vc_havoc(d, cap * sizeof(C));
    d[n] = C(0);
    const C c0 = d[0], c1 = d[1];
    vc_cover("reached");
    O o(static_cast<S&&>(s));
    vc_assert(o.has_value() && o->size() == n, "a short string of any length is a value");
    vc_assert((n < 1 || (*o)[0] == c0) && (n < 2 || (*o)[1] == c1) && (*o)[n] == C(0), "its characters are held");
    O p(static_cast<O&&>(o));
    vc_assert(p.has_value() && p->size() == n && (n < 1 || (*p)[0] == c0), "a moved option holds the string");
    O e;
    vc_assert(!e.has_value(), "a default-constructed option is empty");
    e = static_cast<O&&>(p);
    vc_assert(e.has_value() && e->size() == n && (n < 2 || (*e)[1] == c1), "an assigned option holds the string");
    e.reset();
    vc_assert(!e.has_value() && e == opt::none, "a reset option is empty");
    vc_assert(o.has_value() && o->empty() && p.has_value(), "moved-from options hold moved-from strings");
}
template<class S>
void string_heap() {
    using C = typename S::value_type;
    using O = opt::option<S>;
    C lit[40] = {};
    S s(lit, lit + 40);
    const u64 n = vc_nondet_u64();
    vc_assume(n <= 40);
    wr<u64>(&s, 8, n);
    C* d = const_cast<C*>(s.data());
    vc_havoc(d, 8 * sizeof(C));
    d[n] = C(0);
    const C c3 = d[3];
    vc_cover("reached");
    O o(static_cast<S&&>(s));
    vc_assert(o.has_value() && o->size() == n && o->data() == d && (n < 4 || (*o)[3] == c3), "a heap string of any length is a value");
    O p(static_cast<O&&>(o));
    vc_assert(p.has_value() && p->size() == n && p->data() == d, "a moved option holds the string");
    O e;
    e = static_cast<O&&>(p);
    vc_assert(e.has_value() && e->size() == n && e->data() == d, "an assigned option holds the string");
    e = opt::none;
    vc_assert(!e.has_value(), "an option assigned none is empty");
}
template<class S>
void string_any_length() {                                           // no length is special: not even those that no buffer in this model could hold
    using C = typename S::value_type;
    using O = opt::option<S>;
    C lit[40] = {};
    S s(lit, lit + 40);
    const u64 n = vc_nondet_u64();
    wr<u64>(&s, 8, n);
    const C* const d = s.data();
    O o(static_cast<S&&>(s));
    vc_cover("reached");
    vc_assert(o.has_value() && o->size() == n && o->data() == d, "a heap string of any length is a value");
    ALT({ o.reset(); vc_assert(!o.has_value() && o == opt::none, "a reset option is empty"); })
    ALT({ o = opt::none; vc_assert(!o.has_value() && !bool(o), "an option assigned none is empty"); })
    ALT({ o = O{}; vc_assert(!o.has_value(), "an option assigned an empty option is empty"); o.emplace(); vc_assert(o.has_value() && o->empty(), "an emplaced string is held"); })
    ALT({ O t = o.take(); vc_assert(!o.has_value() && t.has_value() && t->size() == n && t->data() == d, "take moves the string out and leaves nothing"); })
    ALT({ O e; o.swap(e); vc_assert(!o.has_value() && e.has_value() && e->size() == n && e->data() == d, "swap exchanges the states"); })
    ALT({ O e; const O& c = e; o = c; vc_assert(!o.has_value() && !e.has_value(), "assignment from an empty option"); })
    ALT({ opt::option<O> u(static_cast<O&&>(o)); vc_assert(u.has_value() && (*u).has_value() && (**u).size() == n, "a nested option holds the string"); (*u).reset(); vc_assert(u.has_value() && !(*u).has_value(), "the inner option is empty"); u.reset(); vc_assert(!u.has_value(), "the outer option is empty"); })
}
template<class S>
void string_empty() {
    using O = opt::option<S>;
    vc_cover("reached");
    O a{S{}};
    vc_assert(a.has_value() && a->empty(), "the empty string is a value");
    O b;
    vc_assert(!b.has_value() && b != a, "an empty option differs from one that holds the empty string");
    b.emplace();
    vc_assert(b.has_value() && b == a, "an emplaced empty string is a value");
    a->clear();
    vc_assert(a.has_value(), "a cleared string is a value");
    b.reset();
    a = b;
    vc_assert(!a.has_value(), "assignment from an empty option");
}

// --- vectors -----------------------------------------------------------------------------------------------------------
template<class Vec, class Mk>
void vectors(Mk mk) {
    using O = opt::option<Vec>;
    vc_cover("reached");
    ALT({
        O a{Vec{}};
        vc_assert(a.has_value() && a->empty(), "the empty vector is a value");
        O b;
        vc_assert(!b.has_value(), "a default-constructed option is empty");
        b = a;
        vc_assert(b.has_value() && b->empty(), "an assigned empty vector is a value");
        b.reset();
        vc_assert(!b.has_value(), "a reset option is empty");
        b = static_cast<O&&>(a);
        vc_assert(b.has_value() && b->empty(), "a moved empty vector is a value");
    })
    ALT({
        const u32 x = vc_nondet_u32();
        Vec v = mk(x);
        const Vec w = v;
        O a(static_cast<Vec&&>(v));
        vc_assert(a.has_value() && *a == w, "a vector is a value");
        O b(a);
        vc_assert(b.has_value() && *b == w && *a == w, "a copied option holds the vector");
        O c(static_cast<O&&>(b));
        vc_assert(c.has_value() && *c == w && b.has_value() && b->empty(), "a moved option holds the vector");
        c.reset();
        vc_assert(!c.has_value() && !(c == w), "a reset option is empty");
        c = w;
        vc_assert(c.has_value() && *c == w, "an assigned vector is held");
        c->clear();
        vc_assert(c.has_value() && c->empty(), "a cleared vector is a value");
    })
}

// --- polymorphic classes -------------------------------------------------------------------------------------------------
template<class P>
void polymorphic(u32 (*rdv)(const P&), int k) {
    using O = opt::option<P>;
    const V x{vc_nondet_u32()};
    vc_cover("reached");
    O a(std::in_place, x);
    vc_assert(a.has_value() && rdv(*a) == x.x && a->f() == k, "an object constructed in place is held");
    O b(a);
    vc_assert(b.has_value() && rdv(*b) == x.x && b->f() == k, "a copied option holds the object");
    O e;
    vc_assert(!e.has_value(), "a default-constructed option is empty");
    e = b;
    vc_assert(e.has_value() && rdv(*e) == x.x && e->f() == k, "an assigned option holds the object");
    e.reset();
    vc_assert(!e.has_value(), "a reset option is empty");
    e.emplace(x);
    vc_assert(e.has_value() && rdv(*e) == x.x && e->f() == k, "an emplaced object is held");
    e = opt::none;
    vc_assert(!e.has_value(), "an option assigned none is empty");
    e = static_cast<O&&>(b);
    vc_assert(e.has_value() && rdv(*e) == x.x && e->f() == k, "a moved option holds the object");
}
