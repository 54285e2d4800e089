// C17: polymorphic objects keep their dynamic type.
#include "poly.hpp"
#include "mutate.hpp"
#include <deque>
#include <typeinfo>
#include <utility>
using namespace doc; using namespace br; using namespace poly;
PBT_MAIN("C17", "objects of ~75 registered classes (derived over several levels, multiple and virtual inheritance, ids of colliding hash, two unrelated hierarchies) held by raw, unique and shared base pointers, alone, "
         "in containers and in each other, round trip through all formats and routes with permuted fields; type ids corrupted, removed, duplicated, ill-typed, swapped; non-trivial: a derived class is involved / an id was changed")

// many more registered classes, four of them with ids of the same hash
template<int N> struct KindT : Circle {
    int k = 0; std::string extra;
    static const char* id() { static const std::string s = N < 4 ? std::string(collide[N]) : "kind/" + std::to_string(N * 7919); return s.c_str(); }
    const Srl::TypeID& srl_type_id() override;
    void srl_resolve(Srl::Context& c) override { if(N % 2) c("k", k); Circle::srl_resolve(c); if(!(N % 2)) c("k", k); c("extra", extra); step(); }
    void gen(Gen& g, int d) override { Circle::gen(g, d); k = N * 1000 + (int)g.c.draw(1000); extra = g.text(5); }
    bool equal(const Shape& o, Iso& i, const std::string& p) const override { if(!Circle::equal(o, i, p)) return false; auto& x = dynamic_cast<const KindT&>(o); return (k == x.k && extra == x.extra) || i.no(p, "k"); }
    std::string show() const override { return std::string("KindT<") + std::to_string(N) + ">"; }
};
template<int N> struct Reg { static const Srl::Lib::TypeRegistration<KindT<N>> r; };
template<int N> const Srl::Lib::TypeRegistration<KindT<N>> Reg<N>::r = Srl::register_type<KindT<N>>(KindT<N>::id());
template<int N> const Srl::TypeID& KindT<N>::srl_type_id() { return Reg<N>::r; }
static const int KINDS = 64;
typedef std::unique_ptr<Circle> (*Make)();
template<int... N> static const std::vector<Make>& makers(std::integer_sequence<int, N...>) { static const std::vector<Make> v = { []() -> std::unique_ptr<Circle> { (void)&Reg<N>::r; return std::unique_ptr<Circle>(new KindT<N>()); }... }; return v; }
static const std::vector<Make>& kinds() { return makers(std::make_integer_sequence<int, KINDS>()); }
static std::unique_ptr<Circle> circle(Gen& g) { if(g.c.chance(1, 3)) return make_circle(g, 2); auto k = kinds()[g.c.chance(1, 4) ? g.c.draw(4) : g.c.draw(KINDS)](); k->gen(g, 2); return k; }
static std::unique_ptr<Shape> shape(Gen& g) { if(g.c.chance(1, 3)) return circle(g); return make_shape(g, 1); }

// every way to hold a base pointer
struct Zoo {
    std::unique_ptr<Shape> u; Shape* raw = nullptr; std::shared_ptr<Shape> s; std::unique_ptr<Circle> uc;
    std::vector<std::unique_ptr<Shape>> v; std::list<std::shared_ptr<Shape>> l; std::deque<std::unique_ptr<Circle>> d;
    std::map<int, std::shared_ptr<Shape>> m; std::unique_ptr<Shape> arr[2]; std::pair<int, std::unique_ptr<Shape>> pr; std::tuple<std::unique_ptr<Shape>, int, std::shared_ptr<Circle>> tp;
    std::vector<Shape*> vr; std::vector<std::vector<std::unique_ptr<Shape>>> vv; Srl::Lib::HTable<std::string, std::shared_ptr<Shape>> h; std::list<Shape*> lr; std::unique_ptr<Animal> a; std::vector<std::unique_ptr<Animal>> va;
    Circle* rc = nullptr; std::map<std::string, Shape*> mr;
    static const int Fields = 19;
    unsigned mask = ~0u; std::vector<int> order;
    Zoo() { }
    Zoo(const Zoo&) = delete;
    void free() { for(auto* p : vr) delete p; vr.clear(); for(auto* p : lr) delete p; lr.clear(); for(auto& p : mr) delete p.second; mr.clear(); }
    ~Zoo() { free(); delete raw; delete rc; }
    void srl_resolve(Srl::Context& c)
    {
        for(int i : order) { if(!(mask >> i & 1)) continue; switch(i) {
            case 0: c("u", u); break; case 1: c("raw", raw); break; case 2: c("s", s); break; case 3: c("uc", uc); break; case 4: c("v", v); break; case 5: c("l", l); break; case 6: c("d", d); break;
            case 7: c("m", m); break; case 8: c("arr", arr); break; case 9: c("pr", pr); break; case 10: c("tp", tp); break; case 11: c("vr", vr); break; case 12: c("vv", vv); break; case 13: c("h", h); break;
            case 14: c("lr", lr); break; case 15: c("a", a); break; case 16: c("va", va); break; case 17: c("rc", rc); break; case 18: c("mr", mr); break; } }
    }
    static std::unique_ptr<Animal> animal(Gen& g) { std::unique_ptr<Animal> a; if(g.c.flip()) { auto* d = new Dog(); d->name = g.text(6); a.reset(d); } else a.reset(new Animal()); a->legs = (int)g.c.draw(100); return a; }
    void gen(Gen& g)
    {
        auto& c = g.c; auto n = [&] { return c.draw(4); }; auto sh = [&] { return std::shared_ptr<Shape>(shape(g)); };
        for(size_t k = 0; k < (size_t)Fields; k++) { if(!(mask >> k & 1)) continue; switch(k) {
            case 0: u = shape(g); break; case 1: raw = shape(g).release(); break; case 2: s = sh(); break; case 3: uc = circle(g); break;
            case 4: for(size_t i = n(); i--;) v.push_back(shape(g)); break; case 5: for(size_t i = n(); i--;) l.push_back(sh()); break; case 6: for(size_t i = n(); i--;) d.push_back(circle(g)); break;
            case 7: for(size_t i = n(); i--;) m[(int)c.draw(100)] = sh(); break; case 8: for(auto& x : arr) x = shape(g); break; case 9: pr.first = 3; pr.second = shape(g); break;
            case 10: std::get<0>(tp) = shape(g); std::get<1>(tp) = 4; std::get<2>(tp) = std::shared_ptr<Circle>(circle(g)); break; case 11: for(size_t i = n(); i--;) vr.push_back(shape(g).release()); break;
            case 12: for(size_t i = n(); i--;) { vv.emplace_back(); for(size_t j = n(); j--;) vv.back().push_back(shape(g)); } break;
            case 13: for(size_t i = n(); i--;) h.insert("k" + std::to_string(c.draw(99)), sh()); break; case 14: for(size_t i = n(); i--;) lr.push_back(shape(g).release()); break;
            case 15: a = animal(g); break; case 16: for(size_t i = n(); i--;) va.push_back(animal(g)); break; case 17: rc = circle(g).release(); break;
            case 18: for(size_t i = n(); i--;) { auto& p = mr[g.ascii(4)]; if(!p) p = shape(g).release(); } break; } }
    }
    static const Shape* p(const std::unique_ptr<Shape>& x) { return x.get(); } static const Shape* p(const std::shared_ptr<Shape>& x) { return x.get(); } static const Shape* p(const std::unique_ptr<Circle>& x) { return x.get(); } static const Shape* p(const std::shared_ptr<Circle>& x) { return x.get(); } static const Shape* p(const Shape* x) { return x; }
    template<class X> static bool one(const X& x, const X& y, Iso& i, const std::string& n) { auto *a = p(x), *b = p(y); if(!a != !b) return i.no(n, "null"); return !a || a->equal(*b, i, n); }
    template<class X> static bool seq(const X& x, const X& y, Iso& i, const std::string& n) { if(x.size() != y.size()) return i.no(n, "number of elements"); auto b = y.begin(); for(auto& a : x) if(!one(a, *b++, i, n + "[]")) return false; return true; }
    template<class X> static bool map(const X& x, const X& y, Iso& i, const std::string& n) { if(x.size() != y.size()) return i.no(n, "number of elements"); auto b = y.begin(); for(auto& a : x) { if(a.first != b->first) return i.no(n, "key"); if(!one(a.second, b->second, i, n)) return false; ++b; } return true; }
    static bool beast(const std::unique_ptr<Animal>& x, const std::unique_ptr<Animal>& y, Iso& i) { if(!x != !y) return i.no("animal", "null"); if(!x) return true; if(typeid(*x) != typeid(*y)) return i.no("animal", "dynamic type"); auto *d = dynamic_cast<Dog*>(x.get()), *e = dynamic_cast<Dog*>(y.get()); return (x->legs == y->legs && (!d || d->name == e->name)) || i.no("animal", "value"); }
    bool equal(const Zoo& o, Iso& i) const
    {
        bool ok = one(u, o.u, i, "u") && one((const Shape*)raw, (const Shape*)o.raw, i, "raw") && one(s, o.s, i, "s") && one(uc, o.uc, i, "uc") && seq(v, o.v, i, "v") && seq(l, o.l, i, "l") && seq(d, o.d, i, "d") && map(m, o.m, i, "m")
            && one(arr[0], o.arr[0], i, "arr") && one(arr[1], o.arr[1], i, "arr") && one(pr.second, o.pr.second, i, "pr") && one(std::get<0>(tp), std::get<0>(o.tp), i, "tp0") && one(std::get<2>(tp), std::get<2>(o.tp), i, "tp2")
            && seq(vr, o.vr, i, "vr") && seq(lr, o.lr, i, "lr") && one((const Shape*)rc, (const Shape*)o.rc, i, "rc") && map(mr, o.mr, i, "mr") && beast(a, o.a, i);
        if(!ok) return false;
        if(vv.size() != o.vv.size() || va.size() != o.va.size() || h.num_entries() != o.h.num_entries()) return i.no("vv/va/h", "number of elements");
        for(size_t k = 0; k < vv.size(); k++) if(!seq(vv[k], o.vv[k], i, "vv")) return false;
        for(size_t k = 0; k < va.size(); k++) if(!beast(va[k], o.va[k], i)) return false;
        h.foreach([&](const std::string& k, const std::shared_ptr<Shape>& x) { auto* y = const_cast<Zoo&>(o).h.get(k); if(!y) { ok = i.no("h", "key"); return; } ok &= one(x, *y, i, "h"); });
        return ok;
    }
};
static void pick(Case& c, Zoo& z) { for(int i = 0; i < Zoo::Fields; i++) z.order.push_back(i); for(int i = Zoo::Fields; i > 1; i--) std::swap(z.order[i - 1], z.order[c.draw(i)]); z.mask = (unsigned)(c.draw64() & c.draw64()); if(!(z.mask & ((1u << Zoo::Fields) - 1))) z.mask = 1u << c.draw(Zoo::Fields); }
static void like(Zoo& z, const Zoo& a) { z.order = a.order; z.mask = a.mask; }
// permutes the fields of every object; only where there's no sharing that depends on the order
static void permute(Case& c, Doc& d) { if(d.k == Obj && c.flip()) for(size_t i = d.m.size(); i > 1; i--) std::swap(d.m[i - 1], d.m[c.draw(i)]); for(auto& x : d.m) if(x.second.scope()) permute(c, x.second); }

template<class F> static void routes(Case& c, Fmt f, const Bytes& b, const Bytes& pb, F&& check)
{
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    check("restore", [&](Zoo& z) { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(z, s, p); }); }); });
    check("load_source + paste", [&](Zoo& z) { Srl::Tree t; load(t, f, b, via, chunk); t.root().paste(z); });
    check("unpack", [&](Zoo& z) { source(via, pb, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().unpack(s, p, "obj", z); }); }); });
    check("unpack Union + copy_to", [&](Zoo& z) { source(via, pb, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree t; Srl::Union u; t.unpack(s, p, "obj", u); u.copy_to(z); }); }); });
}
PBT_TEST(holders, 5000, 120000)
{
    reset(c); Gen g(c); state().sharing = false; g.negzero = false;
    Zoo a; pick(c, a); a.gen(g); c.nontrivial();
    Fmt f = pick_fmt(c); Bytes b, pb; std::string how;
    auto z0 = Doc::obj();
    switch(c.draw(3)) {
        case 0: how = "stored directly"; b = with(f, [&](auto& p) { return str(Srl::Tree().store(a, p)); }); pb = with(f, [&](auto& p) { std::vector<uint8_t> v; Srl::Tree().pack(v, p, "obj", a); return str(v); }); break;
        case 1: how = "stored through a document"; { Srl::Tree t; t.load_object(a); b = with(f, [&](auto& p) { return str(t.to_source(p)); }); Srl::Tree t2; t2.root().insert("obj", a); pb = with(f, [&](auto& p) { return str(t2.to_source(p)); }); } break;
        default: how = "rewritten with permuted fields"; { auto d = decode(SR, with(SR, [&](auto& p) { return str(Srl::Tree().store(a, p)); })); permute(c, d); b = wild(c, f, d); auto w = Doc::obj(); w.m.emplace_back("obj", d); pb = wild(c, f, w); } break;
    }
    c.note(how, "\n", name(f), " ", quote(b, 900));
    bool used = c.chance(1, 4);
    routes(c, f, b, pb, [&](const char* r, auto&& fn) {
        Zoo z; like(z, a); if(used) { z.gen(g); z.free(); }
        auto m = thrown([&] { fn(z); });
        CHECK(c, m.empty(), how << ", " << r << " threw: " << m << "\n" << quote(b, 900));
        Iso i; CHECK(c, a.equal(z, i), how << ", " << r << ": " << i.why << "\n" << quote(b, 900));
    });
    Zoo z; like(z, a); Srl::Tree t; t.load_object(a); t.root().paste(z);
    Iso i; CHECK(c, a.equal(z, i), "load_object + paste: " << i.why);
}
// single items: every pointer kind, also read as another kind of pointer or a base class
PBT_TEST(items, 6000, 150000)
{
    reset(c); Gen g(c); state().sharing = false;
    auto o = shape(g); bool circ = dynamic_cast<Circle*>(o.get()); Fmt f = pick_fmt(c); c.nontrivial(typeid(*o) != typeid(Shape));
    Shape* raw = o.get(); std::vector<uint8_t> out; size_t how = c.draw(3);
    with(f, [&](auto& p) {
        if(how == 0) Srl::Tree().pack(out, p, "first", 1, "o", o, "last", "text");
        else if(how == 1) Srl::Tree().pack(out, p, "o", raw, "first", 1, "last", "text");
        else { Srl::Tree t; t.root().insert("first", 1, "o", o, "last", "text"); t.to_source(out, p); } });
    Bytes b = str(out); c.note(o->show(), " ", name(f), " ", quote(b, 500));
    auto ok = [&](const char* r, const Shape* x) { Iso i; CHECK(c, x, r << " gave null"); CHECK(c, o->equal(*x, i, "o"), r << ": " << i.why << " " << quote(b, 500)); };
    auto via = pick_via(c); auto chunk = pick_chunk(c); size_t way = c.draw(9); std::string txt;
    auto e = thrown([&] { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) {
        switch(way) {
            case 0: { std::unique_ptr<Shape> x; Srl::Tree().unpack(s, p, "last", txt, "o", x); ok("unpack unique_ptr", x.get()); break; }
            case 1: { Shape* x = nullptr; Srl::Tree().unpack(s, p, "o", x, "last", txt); std::unique_ptr<Shape> own(x); ok("unpack raw", x); break; }
            case 2: { Shape* x = shape(g).release(); Srl::Tree().unpack(s, p, "o", x); std::unique_ptr<Shape> own(x); ok("unpack into set raw pointer", x); break; }
            case 3: { auto x = shape(g); Srl::Tree().unpack(s, p, "o", x); ok("unpack into set unique_ptr", x.get()); break; }
            case 4: { Srl::Tree t; t.load_source(s, p); auto x = t.root().unwrap_field<std::unique_ptr<Shape>>("o"); ok("unwrap_field", x.get()); auto y = t.root().unwrap_field<std::unique_ptr<Shape>>("o"); ok("unwrap_field again", y.get()); break; }
            case 5: { Srl::Tree t; t.load_source(s, p); auto x = t.get("o").unwrap<std::unique_ptr<Shape>>(); ok("Union::unwrap", x.get()); break; }
            case 6: { Srl::Tree t; t.load_source(s, p); auto x = t.root().node("o").unwrap<std::unique_ptr<Shape>>(); ok("Node::unwrap", x.get()); break; }
            case 7: { std::unique_ptr<Circle> x; std::string m = thrown([&] { Srl::Tree().unpack(s, p, "o", x); }); CHECK(c, m.empty() == circ, o->show() << " unpacked to Circle: " << (m.empty() ? "accepted" : m)); if(circ) ok("as Circle", x.get()); break; }
            default: { std::unique_ptr<Animal> x; std::string m = thrown([&] { Srl::Tree().unpack(s, p, "o", x); }); CHECK(c, !m.empty(), o->show() << " was accepted as an Animal"); break; }
        } }); }); });
    CHECK(c, e.empty(), "route " << way << " threw " << e << " for " << o->show() << " " << quote(b, 500));
    if(way < 2) CHECK(c, txt == "text", "item next to the object: " << txt);
}

// ---- type ids changed ----
struct Spot { Doc* d; bool circle; size_t at; };
static void spots(Doc& d, bool circle, std::vector<Spot>& r)
{
    for(size_t i = 0; i < d.m.size(); i++) {
        auto& x = d.m[i];
        if(x.first == "srl_type_id" && x.second.k == Str) r.push_back({ &d, circle, i });
        bool cc = d.k == Arr || x.first == "srl_shared_value" ? circle : x.first == "uc" || x.first == "d" || x.first == "rc" || x.first == "c" || x.first == "circles" || x.first == "vc" || x.first == "sc";
        if(x.second.scope()) spots(x.second, cc, r);
    }
}
PBT_TEST(bad_ids, 6000, 150000)
{
    reset(c); Gen g(c); state().sharing = false;
    Zoo a; pick(c, a); a.gen(g);
    auto good = decode(SR, with(SR, [&](auto& p) { return str(Srl::Tree().store(a, p)); })); auto d = good;
    std::vector<Spot> sp; spots(d, false, sp); if(sp.empty()) throw pbt::Discard{};
    auto& s = sp[c.draw(sp.size())]; auto& id = s.d->m[s.at].second; std::string what; Bytes was = id.s;
    auto registered = [&](const Bytes& x) { for(auto* i : ids) if(x == i) return true; for(auto* i : collide) if(x == i) return true; return x.compare(0, 5, "kind/") == 0 && x.size() < 12 && atoi(x.c_str() + 5) % 7919 == 0; };
    bool animal = was == "Animal" || was == "Dog";
    switch(c.draw(10)) {
        case 0: what = "unknown id"; id.s = g.text(20); while(registered(id.s)) id.s += "?"; break;
        case 1: what = "id with something appended"; id.s = was + g.text(3); while(registered(id.s)) id.s += "?"; break;
        case 2: what = "id cut short"; id.s.pop_back(); { bool ok; from_utf8(id.s, &ok); if(!ok) id.s.pop_back(); } if(registered(id.s)) throw pbt::Discard{}; break;
        case 3: what = "empty id"; id.s.clear(); break;
        case 4: what = "id in another case"; for(auto& x : id.s) x = (char)(islower((unsigned char)x) ? toupper(x) : tolower(x)); if(registered(id.s)) throw pbt::Discard{}; break;
        case 5: what = "no id"; s.d->m.erase(s.d->m.begin() + s.at); break;
        case 6: what = "id of another kind"; { size_t k = c.draw(5); id = k == 0 ? Doc::integer(g.integer_for(I64)) : k == 1 ? Doc::boolean(c.flip()) : k == 2 ? Doc() : k == 3 ? Doc::flt(g.dbl()) : Doc::bin(was + "\xff"); } break;
        case 7: what = "id in a scope"; { Doc n = c.flip() ? Doc::arr() : Doc::obj(); n.m.emplace_back(n.k == Arr ? "" : "srl_type_id", id); if(c.flip()) n.m.clear(); id = n; } break;
        case 8: what = "id of an unrelated class"; id.s = animal ? ids[c.draw(n_shapes)] : ids[n_shapes + c.draw(2)]; break;
        default: if(!s.circle) throw pbt::Discard{}; what = "id of a base or sibling class"; id.s = ids[c.pickl<int>({ 0, 3, 4, 5, 6, 7 })]; break;
    }
    Fmt f = pick_fmt(c); auto w = Doc::obj(); w.m.emplace_back("obj", d); Bytes b = wild(c, f, d), pb = wild(c, f, w), gb = encode(f, good);
    c.nontrivial(); c.label(what); c.note(what, " instead of ", quote(was), "\n", name(f), " ", quote(b, 900));
    size_t start = c.draw(3); long live = state().live;
    routes(c, f, b, pb, [&](const char* r, auto&& fn) {
        { Zoo z; like(z, a); if(start) z.gen(g); if(start == 2) z.free();
          auto m = thrown([&] { fn(z); });
          CHECK(c, !m.empty(), what << " instead of " << quote(was) << " accepted by " << r << ": " << quote(b, 900));
          // still a valid object
          Iso i; CHECK(c, z.equal(z, i), "object after the failure: " << i.why);
          if(c.flip()) { z.free(); m = thrown([&] { Srl::Tree t; load(t, f, gb); if(c.flip()) t.root().paste(z); else with(f, [&](auto& p) { t.restore(z, (const uint8_t*)gb.data(), gb.size(), p); }); });
            CHECK(c, m.empty(), "afterwards the good document is refused: " << m); Iso j; CHECK(c, a.equal(z, j), "good document restored after the failure: " << j.why); } }
    });
    if(!(a.mask & (1u << 11 | 1u << 14 | 1u << 18))) CHECK(c, state().live == live, what << ": objects left over: " << state().live - live);
}
// an id exchanged with one of another class: refused, or that class is what's restored
PBT_TEST(other_ids, 4000, 100000)
{
    reset(c); Gen g(c); state().sharing = false;
    auto o = shape(g); Doc d = decode(SR, with(SR, [&](auto& p) { std::vector<uint8_t> v; Srl::Tree().pack(v, p, "o", o); return str(v); }));
    Doc& x = d.m[0].second; for(auto& n : x.m) if(n.first == "srl_type_id") { size_t k = c.draw(14); n.second.s = k < 10 ? ids[k] : collide[k - 10]; }
    Bytes id; for(auto& n : x.m) if(n.first == "srl_type_id") id = n.second.s;
    // fields a class might need additionally
    if(c.flip()) for(auto* n : { "r", "inner", "k", "v", "legs" }) { bool has = false; for(auto& y : x.m) has |= y.first == n; if(!has) x.m.emplace_back(n, Doc::integer(c.draw(100))); }
    if(c.flip()) for(auto* n : { "name", "extra", "tag" }) { bool has = false; for(auto& y : x.m) has |= y.first == n; if(!has) x.m.emplace_back(n, Doc::str(n)); }
    if(c.flip()) for(auto* n : { "marks", "kids", "circles" }) { bool has = false; for(auto& y : x.m) has |= y.first == n; if(!has) x.m.emplace_back(n, Doc::arr()); }
    auto has = [&](std::initializer_list<const char*> l) { for(auto* n : l) { bool h = false; for(auto& y : x.m) h |= y.first == n; if(!h) return false; } return true; };
    bool expect = id == "Shape" || (id == "Circle" && has({ "r", "name" })) || (id == ids[2] && has({ "r", "name", "marks", "inner" })) || (id == "Group" && has({ "kids", "circles" })) || (id == ids[4] && has({ "tag" })) || (id == "Virt" && has({ "v" }));
    for(auto* k : collide) if(id == k) expect = has({ "k", "extra", "name", "r" });
    bool sure = id != "Owner" && id != "Link";
    Fmt f = pick_fmt(c); Bytes b = wild(c, f, d); c.note(o->show(), " as ", quote(id), " ", quote(b, 500));
    for(int route = 0; route < 2; route++) {
        std::unique_ptr<Shape> r;
        auto m = thrown([&] { if(route) { Srl::Tree t; load(t, f, b); t.root().paste("o", r); } else with(f, [&](auto& p) { Srl::Tree().unpack(vec(b), p, "o", r); }); });
        if(sure) CHECK(c, m.empty() == expect, (expect ? "refused: " + m : std::string("accepted")) << " " << o->show() << " as " << quote(id) << " " << quote(b, 600));
        if(m.empty()) { c.nontrivial(); CHECK(c, r && id == r->srl_type_id().name(), "dynamic type doesn't match the id " << quote(id)); for(auto& y : x.m) if(y.first == "id") CHECK(c, (__int128)r->id == y.second.i, "id " << r->id); }
    }
}
// a class id can be registered once; a second registration changes nothing
PBT_TEST(duplicates, 300, 3000)
{
    reset(c); Gen g(c); auto* id = ids[c.draw(10)]; c.nontrivial();
    auto m = thrown([&] { switch(c.draw(3)) { case 0: Srl::register_type<Dog>(id); break; case 1: Srl::register_type<Circle>(id); break; default: Srl::register_type<KindT<5>>(id); } });
    CHECK(c, !m.empty(), "registered " << id << " twice");
    auto o = make_shape(g, 2); Fmt f = pick_fmt(c); std::vector<uint8_t> v; with(f, [&](auto& p) { Srl::Tree().pack(v, p, "o", o); });
    std::unique_ptr<Shape> r; with(f, [&](auto& p) { Srl::Tree().unpack(v, p, "o", r); });
    Iso i; CHECK(c, r && o->equal(*r, i, "o"), i.why);
}
