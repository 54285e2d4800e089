// Per-type generation, comparison and document model for Dyn fields.
#pragma once
#include "dyn.hpp"
#include <array>
#include <deque>
#include <list>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace dyn {
template<class T, class = void> struct Tr;
template<class T> bool eq(const T& a, const T& b, Cmp& c, const std::string& p) { return Tr<T>::eq(a, b, c, p); }
template<class T> Doc  mk(const T& a, Docs& d) { return Tr<T>::doc(a, d); }
template<class T> void gn(T& a, Gen& g) { Tr<T>::gen(a, g); }
template<class T> void cp(T& to, const T& from) { Tr<T>::copy(to, from); }

inline size_t few_(Gen& g) { size_t k = g.c.weighted({ 60, 25, 10, 3 }); return k == 0 ? g.c.draw(4) : k == 1 ? g.c.draw(9) : k == 2 ? 14 + g.c.draw(4) : g.c.draw(60); }
inline size_t few(Gen& g) { auto& b = budget(); auto n = few_(g); if(b < (long)n) n = b > 0 ? (size_t)b : 0; b -= (long)n + 1; return n; }
template<class T> std::string sh(const T& v) { Docs d; return doc::show(mk(v, d), 300); }

template<class T> struct Plain { static void copy(T& to, const T& from) { to = from; } };

// --- numbers ---
template<class T> constexpr doc::CT ct()
{
    if(std::is_same<T, float>::value) return doc::F32;
    if(std::is_floating_point<T>::value) return doc::F64;
    const doc::CT s[] = { doc::I8, doc::I16, doc::I32, doc::I64 }, u[] = { doc::U8, doc::U16, doc::U32, doc::U64 };
    int i = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3;
    return std::is_signed<T>::value ? s[i] : u[i];
}
template<class T> struct Tr<T, std::enable_if_t<Srl::Lib::is_numeric<T>::value && std::is_integral<T>::value && !std::is_same<T, bool>::value>> : Plain<T> {
    static void gen(T& a, Gen& g) { a = (T)g.integer_for(ct<T>()); }
    static bool eq(const T& a, const T& b, Cmp& c, const std::string& p) { return a == b || c.no(p, "expected " + std::to_string(a) + ", got " + std::to_string(b)); }
    static Doc doc(const T& a, Docs&) { return Doc::integer((__int128)a, ct<T>()); }
};
template<class T> struct Tr<T, std::enable_if_t<std::is_floating_point<T>::value>> : Plain<T> {
    static void gen(T& a, Gen& g) { a = std::is_same<T, float>::value ? (T)g.flt() : (T)g.dbl(); }
    static bool eq(const T& a, const T& b, Cmp& c, const std::string& p) { return a == b || (a != a && b != b) || c.no(p, "expected " + doc::show(Doc::flt((double)a)) + ", got " + doc::show(Doc::flt((double)b))); }
    static Doc doc(const T& a, Docs&) { return Doc::flt((double)a, ct<T>()); }
};
template<> struct Tr<bool> : Plain<bool> {
    static void gen(bool& a, Gen& g) { a = g.c.flip(); }
    static bool eq(bool a, bool b, Cmp& c, const std::string& p) { return a == b || c.no(p, "bool differs"); }
    static Doc doc(bool a, Docs&) { return Doc::boolean(a); }
};
// --- text ---
template<class C> std::basic_string<C> from_cps(const std::vector<uint32_t>& cp)
{
    if constexpr(sizeof(C) == 1) { std::basic_string<C> s; for(auto u : cp) s += doc::utf8(u); return s; }
    else if constexpr(sizeof(C) == 2) { auto s = doc::to16(cp); return std::basic_string<C>(s.begin(), s.end()); }
    else { auto s = doc::to32(cp); return std::basic_string<C>(s.begin(), s.end()); }
}
template<class C> std::vector<uint32_t> to_cps(const C* s, size_t n)
{
    std::vector<uint32_t> r;
    if constexpr(sizeof(C) == 1) return doc::from_utf8(Bytes(s, n));
    else for(size_t i = 0; i < n; i++) {
        uint32_t u = (uint32_t)s[i];
        if(sizeof(C) == 2) { u &= 0xFFFF; if(u >= 0xD800 && u < 0xDC00 && i + 1 < n) { u = 0x10000 + ((u - 0xD800) << 10) + (((uint32_t)s[i + 1] & 0xFFFF) - 0xDC00); i++; } }
        r.push_back(u);
    }
    return r;
}
inline Bytes enc8(const std::vector<uint32_t>& cp) { Bytes b; for(auto u : cp) b += doc::utf8(u); return b; }
template<class C> struct Tr<std::basic_string<C>> : Plain<std::basic_string<C>> {
    typedef std::basic_string<C> S;
    static void gen(S& a, Gen& g) { a = from_cps<C>(doc::from_utf8(g.text())); }
    static bool eq(const S& a, const S& b, Cmp& c, const std::string& p) { return a == b || c.no(p, "expected text " + doc::quote(enc8(to_cps(a.data(), a.size()))) + ", got " + doc::quote(enc8(to_cps(b.data(), b.size())))); }
    static Doc doc(const S& a, Docs&) { return Doc::str(enc8(to_cps(a.data(), a.size()))); }
};
template<class C> struct Tr<C, std::enable_if_t<Srl::Lib::is_char<C>::value>> : Plain<C> {
    static void gen(C& a, Gen& g) { uint32_t u = g.codepoint(); if(sizeof(C) == 1) u &= 0x7F; else if(sizeof(C) == 2 && u > 0xFFFF) u = 0x20AC; a = (C)u; }
    static bool eq(const C& a, const C& b, Cmp& c, const std::string& p) { return a == b || c.no(p, "expected character " + std::to_string((long)a) + ", got " + std::to_string((long)b)); }
    static Doc doc(const C& a, Docs&) { return Doc::str(enc8({ (uint32_t)a })); }
};
template<class C, size_t N> size_t clen(const C (&s)[N]) { size_t n = 0; while(n < N - 1 && s[n]) n++; return n; }
template<class C, size_t N> struct Tr<C[N], std::enable_if_t<Srl::Lib::is_char<C>::value>> {
    typedef C A[N];
    static void gen(A& a, Gen& g)
    {
        auto cp = doc::from_utf8(g.text(N)); if(cp.size() > N) cp.resize(N); for(auto& u : cp) if(!u) u = 'x';
        std::basic_string<C> s; while((s = from_cps<C>(cp)).size() > N - 1) cp.pop_back();
        for(size_t i = 0; i < N; i++) a[i] = (C)(i < s.size() ? s[i] : 0);
    }
    static bool eq(const A& a, const A& b, Cmp& c, const std::string& p)
    {
        size_t n = 0; while(n < N && b[n]) n++;
        if(n == N) return c.no(p, "character array not terminated");
        return (clen(a) == n && !memcmp(a, b, n * sizeof(C))) || c.no(p, "expected chars " + sh(a) + ", got " + sh(b));
    }
    static Doc doc(const A& a, Docs&) { return Doc::str(enc8(to_cps(a, clen(a)))); }
    static void copy(A& to, const A& from) { memcpy(to, from, sizeof(A)); }
};
// --- binary: values kept as vectors, resolved through wrappers (see FieldT) ---
struct Blob { Bytes b; };                                         // BitWrap
template<class T> struct Raw { std::vector<T> v; };               // VecWrap<T>
struct SrlBytes { std::vector<uint8_t> v; };                      // Srl::Bytes
template<> struct Tr<Blob> : Plain<Blob> {
    static void gen(Blob& a, Gen& g) { a.b = g.blob(); }
    static bool eq(const Blob& a, const Blob& b, Cmp& c, const std::string& p) { return a.b == b.b || c.no(p, "expected bytes " + doc::hex(a.b) + ", got " + doc::hex(b.b)); }
    static Doc doc(const Blob& a, Docs&) { return Doc::bin(a.b); }
};
template<class T> struct Tr<Raw<T>> : Plain<Raw<T>> {
    static Bytes bytes(const Raw<T>& a) { return Bytes((const char*)a.v.data(), a.v.size() * sizeof(T)); }
    static void gen(Raw<T>& a, Gen& g) { a.v.resize(few(g)); for(auto& e : a.v) gn(e, g); }
    static bool eq(const Raw<T>& a, const Raw<T>& b, Cmp& c, const std::string& p) { return bytes(a) == bytes(b) || c.no(p, "expected bytes " + doc::hex(bytes(a)) + ", got " + doc::hex(bytes(b))); }
    static Doc doc(const Raw<T>& a, Docs&) { return Doc::bin(bytes(a)); }
};
template<> struct Tr<SrlBytes> : Plain<SrlBytes> {
    static void gen(SrlBytes& a, Gen& g) { auto b = g.blob(); a.v.assign(b.begin(), b.end()); }
    static bool eq(const SrlBytes& a, const SrlBytes& b, Cmp& c, const std::string& p) { return a.v == b.v || c.no(p, "bytes differ"); }
    static Doc doc(const SrlBytes& a, Docs&) { return Doc::bin(br::str(a.v)); }
};
// --- structs ---
template<class D> struct Tr<D, std::enable_if_t<std::is_base_of<Base, D>::value>> : Plain<D> {
    static void gen(D& a, Gen& g) { a.gen(g); }
    static bool eq(const D& a, const D& b, Cmp& c, const std::string& p) { return a.equal(b, c, p); }
    static Doc doc(const D& a, Docs& d) { return a.doc(d); }
};
// --- containers ---
template<class C> struct is_map : std::false_type { };
template<class K, class V, class... R> struct is_map<std::map<K, V, R...>> : std::true_type { };
template<class K, class V, class... R> struct is_map<std::multimap<K, V, R...>> : std::true_type { };
template<class K, class V, class... R> struct is_map<std::unordered_map<K, V, R...>> : std::true_type { };
template<class C> struct is_set : std::false_type { };
template<class K, class... R> struct is_set<std::set<K, R...>> : std::true_type { };
template<class K, class... R> struct is_set<std::multiset<K, R...>> : std::true_type { };
template<class K, class... R> struct is_set<std::unordered_set<K, R...>> : std::true_type { };
template<class C> struct is_seq : std::false_type { };
template<class E, class... R> struct is_seq<std::vector<E, R...>> : std::true_type { };
template<class E, class... R> struct is_seq<std::list<E, R...>> : std::true_type { };
template<class E, class... R> struct is_seq<std::deque<E, R...>> : std::true_type { };

template<class C> struct Tr<C, std::enable_if_t<is_seq<C>::value>> {
    static void gen(C& a, Gen& g) { a.clear(); size_t n = few(g); for(size_t i = 0; i < n; i++) { a.emplace_back(); gn(a.back(), g); } }
    static bool eq(const C& a, const C& b, Cmp& c, const std::string& p)
    {
        if(a.size() != b.size()) return c.no(p, "expected " + std::to_string(a.size()) + " elements, got " + std::to_string(b.size()));
        size_t i = 0; auto y = b.begin();
        for(auto& e : a) if(!dyn::eq(e, *y++, c, p + "[" + std::to_string(i++) + "]")) return false;
        return true;
    }
    static Doc doc(const C& a, Docs& d) { auto r = Doc::arr(); for(auto& e : a) r.m.emplace_back("", mk(e, d)); return r; }
    static void copy(C& to, const C& from) { to.clear(); for(auto& e : from) { to.emplace_back(); cp(to.back(), e); } }
};
template<class C> struct Tr<C, std::enable_if_t<is_set<C>::value>> : Plain<C> {
    static void gen(C& a, Gen& g) { a.clear(); size_t n = few(g); for(size_t i = 0; i < n; i++) { typename C::value_type e{}; gn(e, g); a.insert(e); } }
    static bool eq(const C& a, const C& b, Cmp& c, const std::string& p) { return a == b || c.no(p, "expected " + sh(a) + ", got " + sh(b)); }
    static Doc doc(const C& a, Docs& d) { auto r = Doc::arr(); for(auto& e : a) r.m.emplace_back("", mk(e, d)); return r; }
};
template<class C> struct Tr<C, std::enable_if_t<is_map<C>::value>> {
    typedef typename C::key_type K; typedef typename C::mapped_type V;
    static void gen(C& a, Gen& g) { a.clear(); size_t n = few(g); for(size_t i = 0; i < n; i++) { K k{}; gn(k, g); V v{}; gn(v, g); a.emplace(std::move(k), std::move(v)); } }
    static bool eq(const C& a, const C& b, Cmp& c, const std::string& p)
    {
        if(a.size() != b.size()) return c.no(p, "expected " + std::to_string(a.size()) + " entries, got " + std::to_string(b.size()));
        auto y = b.begin();
        for(auto x = a.begin(); x != a.end(); ++x) {
            auto q = p + "{" + sh(x->first) + "}";
            if constexpr(std::is_same<C, std::unordered_map<K, V>>::value) { y = b.find(x->first); if(y == b.end()) return c.no(q, "missing"); }
            else if(!dyn::eq(x->first, y->first, c, q)) return false;
            if(!dyn::eq(x->second, y->second, c, q)) return false;
            if constexpr(!std::is_same<C, std::unordered_map<K, V>>::value) ++y;
        }
        return true;
    }
    static Doc doc(const C& a, Docs& d)
    {
        auto r = Doc::arr();
        for(auto& e : a) { auto o = Doc::obj(); o.m.emplace_back("key", mk(e.first, d)); o.m.emplace_back("value", mk(e.second, d)); r.m.emplace_back("", o); }
        return r;
    }
    static void copy(C& to, const C& from) { to = from; }   // keeps the order
};
template<class V> struct Tr<Srl::Lib::HTable<std::string, V>> {
    typedef Srl::Lib::HTable<std::string, V> C;
    static std::map<std::string, const V*> all(const C& a) { std::map<std::string, const V*> m; a.foreach([&](const std::string& k, const V& v) { m[k] = &v; }); return m; }
    static void gen(C& a, Gen& g) { a.clear(); size_t n = few(g); for(size_t i = 0; i < n; i++) { V v{}; gn(v, g); a.insert(g.name(), std::move(v)); } }
    static bool eq(const C& a, const C& b, Cmp& c, const std::string& p)
    {
        auto x = all(a), y = all(b);
        if(x.size() != y.size()) return c.no(p, "expected " + std::to_string(x.size()) + " entries, got " + std::to_string(y.size()));
        for(auto& e : x) { auto q = p + "{" + doc::quote(e.first) + "}"; if(!y.count(e.first)) return c.no(q, "missing"); if(!dyn::eq(*e.second, *y[e.first], c, q)) return false; }
        return true;
    }
    static Doc doc(const C& a, Docs& d) { auto r = Doc::obj(); r.i = Tag_Table; a.foreach([&](const std::string& k, const V& v) { r.m.emplace_back(k, mk(v, d)); }); return r; }
    static void copy(C& to, const C& from) { to.clear(); for(auto& e : all(from)) { V v{}; cp(v, *e.second); to.insert(e.first, std::move(v)); } }
};
// --- aggregates ---
template<class E, size_t N> struct Tr<E[N], std::enable_if_t<!Srl::Lib::is_char<E>::value>> {
    typedef E A[N];
    static void gen(A& a, Gen& g) { for(auto& e : a) gn(e, g); }
    static bool eq(const A& a, const A& b, Cmp& c, const std::string& p) { for(size_t i = 0; i < N; i++) if(!dyn::eq(a[i], b[i], c, p + "[" + std::to_string(i) + "]")) return false; return true; }
    static Doc doc(const A& a, Docs& d) { auto r = Doc::arr(); for(auto& e : a) r.m.emplace_back("", mk(e, d)); return r; }
    static void copy(A& to, const A& from) { for(size_t i = 0; i < N; i++) cp(to[i], from[i]); }
};
template<class F, class S> struct Tr<std::pair<F, S>> {
    typedef std::pair<F, S> P;
    static void gen(P& a, Gen& g) { gn(a.first, g); gn(a.second, g); }
    static bool eq(const P& a, const P& b, Cmp& c, const std::string& p) { return dyn::eq(a.first, b.first, c, p + ".first") && dyn::eq(a.second, b.second, c, p + ".second"); }
    static Doc doc(const P& a, Docs& d) { auto r = Doc::obj(); r.m.emplace_back("first", mk(a.first, d)); r.m.emplace_back("second", mk(a.second, d)); return r; }
    static void copy(P& to, const P& from) { cp(to.first, from.first); cp(to.second, from.second); }
};
template<class... T> struct Tr<std::tuple<T...>> {
    typedef std::tuple<T...> P; typedef std::index_sequence_for<T...> I;
    template<size_t... N> static void gen_(P& a, Gen& g, std::index_sequence<N...>) { (gn(std::get<N>(a), g), ...); }
    template<size_t... N> static bool eq_(const P& a, const P& b, Cmp& c, const std::string& p, std::index_sequence<N...>) { return (dyn::eq(std::get<N>(a), std::get<N>(b), c, p + "<" + std::to_string(N) + ">") && ...); }
    template<size_t... N> static void doc_(const P& a, Docs& d, Doc& r, std::index_sequence<N...>) { (r.m.emplace_back("", mk(std::get<N>(a), d)), ...); }
    template<size_t... N> static void cp_(P& to, const P& from, std::index_sequence<N...>) { (cp(std::get<N>(to), std::get<N>(from)), ...); }
    static void gen(P& a, Gen& g) { gen_(a, g, I{}); }
    static bool eq(const P& a, const P& b, Cmp& c, const std::string& p) { return eq_(a, b, c, p, I{}); }
    static Doc doc(const P& a, Docs& d) { auto r = Doc::arr(); doc_(a, d, r, I{}); return r; }
    static void copy(P& to, const P& from) { cp_(to, from, I{}); }
};
// --- pointers --- (a null pointer to something stored as a scope can't be restored: known finding, see C01's probes)
template<class E> constexpr bool scalar_like() { return Srl::Lib::is_numeric<E>::value || Srl::Lib::is_char<E>::value || Srl::Lib::is_basic_string<E>::value; }
template<class P> bool both(const P& a, const P& b, Cmp& c, const std::string& p) { return (!a == !b) || c.no(p, !a ? "expected null" : "got null"); }
template<class E> struct Tr<std::unique_ptr<E>> {
    typedef std::unique_ptr<E> P;
    static void gen(P& a, Gen& g) { if(scalar_like<E>() && g.c.chance(1, 4)) { a.reset(); return; } a.reset(new E()); gn(*a, g); }
    static bool eq(const P& a, const P& b, Cmp& c, const std::string& p) { return both(a, b, c, p) && (!a || dyn::eq(*a, *b, c, p + "->")); }
    static Doc doc(const P& a, Docs& d) { return a ? mk(*a, d) : Doc(); }
    static void copy(P& to, const P& from) { if(!from) { to.reset(); return; } to.reset(new E()); cp(*to, *from); }
};
template<class E> struct Own {       // a raw, owning pointer member
    E* p = nullptr;
    Own() { } Own(const Own&) = delete; Own& operator=(const Own&) = delete; ~Own() { delete p; }
};
template<class E> struct Tr<Own<E>> {
    typedef Own<E> P;
    static void gen(P& a, Gen& g) { delete a.p; a.p = nullptr; if(scalar_like<E>() && g.c.chance(1, 4)) return; a.p = new E(); gn(*a.p, g); }
    static bool eq(const P& a, const P& b, Cmp& c, const std::string& p) { return both(a.p, b.p, c, p) && (!a.p || dyn::eq(*a.p, *b.p, c, p + "->")); }
    static Doc doc(const P& a, Docs& d) { return a.p ? mk(*a.p, d) : Doc(); }
    static void copy(P& to, const P& from) { delete to.p; to.p = nullptr; if(from.p) { to.p = new E(); cp(*to.p, *from.p); } }
};
template<class E> struct Tr<std::shared_ptr<E>> {
    typedef std::shared_ptr<E> P;
    static void gen(P& a, Gen& g) { a.reset(new E()); gn(*a, g); }
    static bool eq(const P& a, const P& b, Cmp& c, const std::string& p) { return both(a, b, c, p) && (!a || dyn::eq(*a, *b, c, p + "->")); }
    static Doc doc(const P& a, Docs& d)
    {
        auto r = Doc::obj(); auto it = d.shared.find(a.get());
        if(it != d.shared.end()) { r.m.emplace_back("srl_shared_key", Doc::integer(it->second, doc::U64)); return r; }
        uint64_t k = d.shared.size(); d.shared[a.get()] = k;
        r.m.emplace_back("srl_shared_key", Doc::integer(k, doc::U64)); r.m.emplace_back("srl_shared_value", mk(*a, d));
        return r;
    }
    static void copy(P& to, const P& from) { to = from; }
};

// --- fields ---
template<class T> struct Cell { T v{}; };
template<class C, class S, class T> void call(C& ctx, const S* name, T&& v, uint64_t fl) { if(name) ctx(*name, v, fl); else ctx(v); }
// hands v to fn as what the library is given
template<class T, class F> void given(T& v, F&& fn) { fn(v); }
template<class E, class F> void given(Own<E>& v, F&& fn) { fn(v.p); }
template<class F> void given(Blob& v, F&& fn)
{
    Srl::BitWrap w((const uint8_t*)v.b.data(), v.b.size(), [&](size_t n) { v.b.assign(n, '\0'); return (uint8_t*)&v.b[0]; });
    fn(w);
}
template<class T, class F> void given(Raw<T>& v, F&& fn) { Srl::VecWrap<T> w(v.v); fn(w); }
template<class F> void given(SrlBytes& v, F&& fn)
{
    std::vector<uint8_t> copy = v.v; Srl::Bytes b(std::move(copy));
    struct Back { SrlBytes& v; Srl::Bytes& b; ~Back() { v.v = std::move(b).extract(); } } back{ v, b };
    fn(b);
}
template<class T> struct FieldT : Field {
    Cell<T> c;
    void resolve(Srl::Context& ctx, const Srl::String* n, uint64_t fl) override { given(c.v, [&](auto& x) { call(ctx, n, x, fl); }); }
    void store(Srl::StoreContext& ctx, const Srl::String* n, uint64_t fl) const override { given(const_cast<T&>(c.v), [&](auto& x) { call(ctx, n, x, fl); }); }
    void restore(Srl::RestoreContext& ctx, const Srl::String* n, uint64_t fl) override { given(c.v, [&](auto& x) { call(ctx, n, x, fl); }); }
    std::unique_ptr<Field> clone() const override { auto r = std::make_unique<FieldT<T>>(); cp(r->c.v, c.v); return r; }
    void gen(Gen& g) override { gn(c.v, g); }
    bool equal(const Field& o, Cmp& cm, const std::string& p) const override { return eq(c.v, static_cast<const FieldT<T>&>(o).c.v, cm, p); }
    Doc doc(Docs& d) const override { return mk(c.v, d); }
};
template<class T> std::unique_ptr<Field> make_leaf(int) { return std::make_unique<FieldT<T>>(); }
// W<L>::type: a type containing structs of level L
template<template<int> class W> std::unique_ptr<Field> make_struct(int l)
{
    if(l == 1) return std::make_unique<FieldT<typename W<1>::type>>();
    return std::make_unique<FieldT<typename W<2>::type>>();
}
struct Reg { Reg(const char* n, unsigned f, std::unique_ptr<Field> (*m)(int)) { kinds().push_back({ n, f, m }); } };
#define DYN_CAT2(a, b) a##b
#define DYN_CAT(a, b) DYN_CAT2(a, b)
#define DYN_LEAF(FLAGS, ...) static Reg DYN_CAT(reg_, __LINE__)(#__VA_ARGS__, FLAGS, &make_leaf<__VA_ARGS__>);
#define DYN_STRUCT(FLAGS, ...) template<int L> struct DYN_CAT(W_, __LINE__) { typedef __VA_ARGS__ type; }; static Reg DYN_CAT(reg_, __LINE__)(#__VA_ARGS__, FLAGS, &make_struct<DYN_CAT(W_, __LINE__)>);
typedef std::string Str; typedef std::u16string Str16; typedef std::u32string Str32; typedef std::wstring StrW;
template<class T> using Vec = std::vector<T>;
template<class T> using Arr2 = T[2];
}
