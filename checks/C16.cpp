// C16: shared objects are restored as the same shared graph.
#include "poly.hpp"
#include "mutate.hpp"
using namespace doc; using namespace br; using namespace poly;
PBT_MAIN("C16", "object graphs with shared_ptr/weak_ptr members (25 kinds of members, random subset and order; polymorphic, plain, scalar and container targets; references from nested objects) "
         "stored and restored in every format and route, compared up to isomorphism of the objects referred to; non-trivial: at least one object is referred to more than once")

static size_t shared_refs(const Holder& h) { size_t n = 0; n += h.s1 == h.s2; n += h.p1 == h.p2; n += h.si == h.si2; for(auto& x : h.vp) n += x == h.p1; for(auto& x : h.vs) n += x == h.s1 || x == h.s2; n += !h.w.expired(); return n; }
template<class F> static void check(Case& c, const Holder& a, const std::string& how, const Bytes& b, F&& restore)
{
    auto h = std::make_unique<Holder>();
    auto m = thrown([&] { restore(*h); });
    CHECK(c, m.empty(), how << " threw: " << m << "\nfields " << a.show() << "\nbytes " << quote(b, 900));
    Iso i; CHECK(c, a.equal(*h, i), how << ": " << i.why << "\nfields " << a.show() << "\nbytes " << quote(b, 900));
}
PBT_TEST(graphs, 6000, 150000)
{
    reset(c); Gen g(c);
    auto a = std::make_unique<Holder>(); a->gen(g);
    c.nontrivial(shared_refs(*a) > 0);
    Fmt f = pick_fmt(c); auto via = pick_via(c); auto chunk = pick_chunk(c); std::string n = name(f);
    Bytes b, packed, doc;
    Srl::Tree once;
    with(f, [&](auto& p) {
        b = str(once.store(*a, p));
        // each store starts afresh: the same Tree, the same parser
        Bytes again = str(once.store(*a, p)); CHECK(c, again == b, n << ": storing again on the same Tree differs\nfirst  " << quote(b, 600) << "\nsecond " << quote(again, 600) << "\nfields " << a->show());
        Bytes fresh = str(Srl::Tree().store(*a, p)); CHECK(c, fresh == b, n << ": storing on another Tree differs");
        Srl::Tree t; t.load_object(*a); doc = str(t.to_source(p));
        Bytes doc2 = str(t.to_source(p)); CHECK(c, doc2 == doc, n << ": writing the document again differs");
        t.load_object(*a); doc2 = str(t.to_source(p)); CHECK(c, doc2 == doc, n << ": loading the object again gives another document: " << quote(doc, 500) << " vs " << quote(doc2, 500));
        std::vector<uint8_t> v; int x = 1; once.pack(v, p, "x", x, "h", *a, "y", x); packed = str(v);
    });
    c.note("fields ", a->show(), "\n", n, " ", quote(b, 900));
    check(c, *a, n + " restore", b, [&](Holder& h) { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(h, s, p); }); }); });
    check(c, *a, n + " restore on the storing Tree", b, [&](Holder& h) { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { once.restore(h, s, p); }); }); });
    check(c, *a, n + " restore again on it", b, [&](Holder& h) { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { once.restore(h, s, p); }); }); });
    check(c, *a, n + " restore into a used object", b, [&](Holder& h) { auto m = state().mask; h.gen(g); state().mask = m; state().order = state().order; source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(h, s, p); }); }); });
    check(c, *a, n + " load_source + paste", b, [&](Holder& h) { Srl::Tree t; load(t, f, b, via, chunk); t.root().paste(h); });
    check(c, *a, n + " load_object, to_source, restore", doc, [&](Holder& h) { with(f, [&](auto& p) { Srl::Tree().restore(h, (const uint8_t*)doc.data(), doc.size(), p); }); });
    check(c, *a, n + " unpack", packed, [&](Holder& h) { int x = 0; source(via, packed, chunk, [&](auto& s) { with(f, [&](auto& p) { if(c.flip()) Srl::Tree().unpack(s, p, "x", x, "h", h, "y", x); else Srl::Tree().unpack(s, p, "y", x, "h", h); }); }); });
    check(c, *a, n + " converted between formats", b, [&](Holder& h) { Srl::Tree t; load(t, f, b); Fmt f2 = pick_fmt(c); auto b2 = write(t, f2); with(f2, [&](auto& p) { Srl::Tree().restore(h, (const uint8_t*)b2.data(), b2.size(), p); }); });
    check(c, *a, "load_object + paste", "", [&](Holder& h) { Srl::Tree t; t.load_object(*a); t.root().paste(h); });
}
// several objects of one document: sharing between the items, in the order they were stored
PBT_TEST(items, 4000, 80000)
{
    reset(c); Gen g(c);
    size_t n = 2 + c.draw(6); std::vector<std::shared_ptr<Plain>> v; std::vector<std::shared_ptr<Shape>> s;
    for(size_t i = 0; i < n; i++) {
        if(i && c.flip()) v.push_back(v[c.draw(i)]); else { v.push_back(std::make_shared<Plain>()); v.back()->gen(g); }
        if(i && c.flip()) s.push_back(s[c.draw(i)]); else s.push_back(std::shared_ptr<Shape>(make_shape(g, 1)));
    }
    std::shared_ptr<Plain> one = v[c.draw(n)], other = v[c.draw(n)]; std::weak_ptr<Plain> weak = v[c.draw(n)]; std::map<int, std::shared_ptr<Shape>> m; for(size_t i = 0; i < n; i++) m[(int)i] = s[c.draw(n)];
    c.nontrivial();
    Fmt f = pick_fmt(c); std::vector<uint8_t> out;
    bool stream = c.flip();
    with(f, [&](auto& p) { if(stream) { std::ostringstream o; Srl::Tree().pack(o, p, "one", one, "v", v, "weak", weak, "s", s, "other", other, "m", m); auto x = o.str(); out.assign(x.begin(), x.end()); }
                           else Srl::Tree().pack(out, p, "one", one, "v", v, "weak", weak, "s", s, "other", other, "m", m); });
    Bytes b = str(out); c.note(name(f), " ", quote(b, 800));
    for(int route = 0; route < 2; route++) {
        std::vector<std::shared_ptr<Plain>> v2; std::vector<std::shared_ptr<Shape>> s2; std::shared_ptr<Plain> one2, other2; std::weak_ptr<Plain> weak2; std::map<int, std::shared_ptr<Shape>> m2;
        auto e = thrown([&] {
            if(route == 0) source(pick_via(c), b, pick_chunk(c), [&](auto& src) { with(f, [&](auto& p) { Srl::Tree().unpack(src, p, "one", one2, "v", v2, "weak", weak2, "s", s2, "other", other2, "m", m2); }); });
            else { Srl::Tree t; load(t, f, b); t.root().paste("one", one2, "v", v2, "weak", weak2, "s", s2, "other", other2, "m", m2); } });
        const char* how = route ? "paste" : "unpack";
        CHECK(c, e.empty(), how << " threw: " << e << "\n" << quote(b, 900));
        Iso i; auto same = [&](auto* x, auto* y, const char* w) { CHECK(c, (!x) == (!y), how << " " << w << ": null"); bool first; if(!i.link(x, y, &first, w) || (first && !x->equal(*y, i, w))) CHECK(c, false, how << ": " << i.why << "\n" << quote(b, 900)); };
        CHECK(c, v2.size() == n && s2.size() == n && m2.size() == n, how << ": sizes");
        same(one.get(), one2.get(), "one"); for(size_t k = 0; k < n; k++) same(v[k].get(), v2[k].get(), "v[]");
        same(weak.lock().get(), weak2.lock().get(), "weak"); for(size_t k = 0; k < n; k++) same(s[k].get(), s2[k].get(), "s[]");
        same(other.get(), other2.get(), "other"); for(size_t k = 0; k < n; k++) same(m[(int)k].get(), m2[(int)k].get(), "m[]");
        // use counts: every reference is one
        CHECK(c, one2.use_count() == one.use_count(), how << ": use_count " << one2.use_count() << " expected " << one.use_count());
    }
}
// the same object referred to through different pointer types
struct Both { std::shared_ptr<Circle> c; std::shared_ptr<Shape> s; std::weak_ptr<Circle> w; bool swap = false;
    void srl_resolve(Srl::Context& x) { if(swap) x("s", s)("c", c)("w", w); else x("w", w)("c", c)("s", s); } };
PBT_TEST(pointer_types, 1500, 30000)
{
    reset(c); Gen g(c); Both a; a.c = std::shared_ptr<Circle>(make_circle(g, 0)); a.s = c.flip() ? std::shared_ptr<Shape>(a.c) : std::shared_ptr<Shape>(make_shape(g, 0)); a.w = a.c; a.swap = c.flip();
    // stored address: a Circle is at the address of its Shape (single inheritance)
    Fmt f = pick_fmt(c); c.nontrivial(a.s == a.c);
    Bytes b = with(f, [&](auto& p) { return str(Srl::Tree().store(a, p)); });
    c.note(name(f), " ", quote(b, 600));
    for(int route = 0; route < 2; route++) {
        Both r; r.swap = a.swap;
        auto m = thrown([&] { if(route) { Srl::Tree t; load(t, f, b); t.root().paste(r); } else with(f, [&](auto& p) { Srl::Tree().restore(r, (const uint8_t*)b.data(), b.size(), p); }); });
        CHECK(c, m.empty(), "threw: " << m << " " << quote(b, 600));
        Iso i; CHECK(c, a.c->equal(*r.c, i, "c") && a.s->equal(*r.s, i, "s"), i.why << " " << quote(b, 600));
        CHECK(c, (a.s == a.c) == (r.s == r.c) && r.w.lock() == r.c, "sharing differs: " << quote(b, 600));
    }
}

// documents whose keys refer to objects of other types: only a convertible object is shared, everything else is refused
namespace {
struct Item { int kind = 0; std::shared_ptr<Plain> p; std::shared_ptr<int> i; std::shared_ptr<std::string> s; std::shared_ptr<Shape> sh; std::shared_ptr<Circle> ci; std::shared_ptr<Animal> an; std::shared_ptr<std::vector<int>> vi; std::shared_ptr<Tagged> ta;
    template<class F> auto with(F&& f) { switch(kind) { case 0: return f(p); case 1: return f(i); case 2: return f(s); case 3: return f(sh); case 4: return f(ci); case 5: return f(an); case 6: return f(vi); default: return f(ta); } } };
struct Row { std::vector<Item> v; void srl_resolve(Srl::Context& c) { for(size_t n = 0; n < v.size(); n++) v[n].with([&](auto& x) { c("item" + std::to_string(n), x); }); } };
template<class T> const void* address(const std::shared_ptr<T>& x) { if constexpr(std::is_polymorphic_v<T>) return x ? dynamic_cast<const void*>(x.get()) : nullptr; else return x.get(); }
}
PBT_TEST(keys, 30000, 1000000)
{
    reset(c); Gen g(c); state().sharing = false;
    Row row; row.v.resize(1 + c.draw(6)); std::map<int, size_t> first; int bad = -1; Doc d = Doc::obj(); std::vector<int> ks; std::vector<std::shared_ptr<Shape>> shapes(row.v.size()); std::vector<Doc> vals(row.v.size());
    bool other = false;
    for(size_t n = 0; n < row.v.size(); n++) {
        int k = (int)c.draw(3); if(c.chance(1, 20)) k = 1000 + k; auto& it = row.v[n]; it.kind = (int)c.draw(8); ks.push_back(k); Doc x = Doc::obj(); x.m.emplace_back("srl_shared_key", Doc::integer(k, U64));
        auto f = first.find(k); if(f != first.end() && c.chance(1, 2)) it.kind = row.v[f->second].kind;
        if(f == first.end() && !c.chance(1, 30)) {
            first[k] = n; Srl::Tree t;
            switch(it.kind) { case 0: { Plain o; o.gen(g); t.root().insert("x", o); break; } case 1: t.root().insert("x", (int)c.draw(1000)); break; case 2: t.root().insert("x", g.text(6)); break;
                case 3: { shapes[n] = std::shared_ptr<Shape>(make_shape(g, 1)); t.root().insert("x", shapes[n].get()); break; } case 4: { shapes[n] = std::shared_ptr<Shape>(make_circle(g, 1)); t.root().insert("x", shapes[n].get()); break; }
                case 5: { std::unique_ptr<Animal> a; if(c.flip()) a.reset(new Dog); else a.reset(new Animal); t.root().insert("x", a.get()); break; } case 6: t.root().insert("x", std::vector<int>(c.draw(4), 7)); break; default: { auto q = std::make_shared<Tagged>(); q->gen(g, 1); shapes[n] = q; t.root().insert("x", shapes[n].get()); } }
            vals[n] = dump(t.root()).m[0].second; x.m.emplace_back("srl_shared_value", vals[n]);
        } else if(f == first.end()) { if(bad < 0) bad = (int)n; } // nothing to refer to
        else {
            auto& o = row.v[f->second]; auto* dyn = shapes[f->second].get(); bool conv = o.kind == it.kind || (dyn && (it.kind == 3 || (it.kind == 4 && dynamic_cast<Circle*>(dyn)) || (it.kind == 7 && dynamic_cast<Tagged*>(dyn))));
            other |= o.kind != it.kind; if(!conv && bad < 0) bad = (int)n;
        }
        if(x.m.size() == 2 && c.flip()) std::swap(x.m[0], x.m[1]);
        d.m.emplace_back("item" + std::to_string(n), x);
    }
    c.nontrivial(other || bad >= 0); Fmt f = pick_fmt(c); Bytes b = encode(f, d); std::string kinds; for(auto& i : row.v) kinds += std::to_string(i.kind) + " "; c.note(name(f), " kinds ", kinds, quote(b, 900));
    for(int route = 0; route < 2; route++) {
        Row r; r.v.resize(row.v.size()); for(size_t n = 0; n < r.v.size(); n++) r.v[n].kind = row.v[n].kind;
        auto e = thrown([&] { if(route) { Srl::Tree t; load(t, f, b); t.root().paste(r); } else { auto ch = pick_chunk(c); source(pick_via(c), b, ch, [&](auto& s) { br::with(f, [&](auto& p) { Srl::Tree().restore(r, s, p); }); }); } });
        const char* how = route ? "load_source + paste" : "restore";
        CHECK(c, e.empty() == (bad < 0), how << ": kinds " << kinds << (bad < 0 ? "threw: " + e : "item " + std::to_string(bad) + " refers to an object of another type (or none) and isn't refused") << " " << quote(b, 900));
        if(bad >= 0) continue;
        for(size_t n = 0; n < r.v.size(); n++) {
            auto a = r.v[n].with([](auto& x) { return address(x); }); auto a0 = r.v[first[ks[n]]].with([](auto& x) { return address(x); });
            CHECK(c, a && a == a0, how << ": item " << n << " isn't the shared object"); long uses = 0; for(int k : ks) uses += k == ks[n];
            CHECK(c, r.v[n].with([](auto& x) { return x.use_count(); }) == uses, how << ": use count of item " << n);
            if(first[ks[n]] == n || shapes[first[ks[n]]]) { // contents
                Srl::Tree t; std::string why; if(auto* sp = shapes[first[ks[n]]].get()) { Iso i; Shape* q = r.v[n].kind == 3 ? r.v[n].sh.get() : r.v[n].kind == 4 ? r.v[n].ci.get() : (Shape*)r.v[n].ta.get(); CHECK(c, sp->equal(*q, i, "item"), how << ": item " << n << " " << i.why); }
                else if(r.v[n].kind != 5) { r.v[n].with([&](auto& x) { t.root().insert("x", *x); }); CHECK(c, equal(norm(dump(t.root()).m[0].second), norm(vals[n]), &why), how << ": item " << n << " " << why); }
            }
        }
    }
}

// listed in KNOWN_FINDINGS
struct Ring_ { int n = 0; std::shared_ptr<Ring_> next; std::weak_ptr<Ring_> back; bool weak = false; void srl_resolve(Srl::Context& c) { c("n", n); if(weak) c("back", back); else c("next", next); } };
struct Root_ { std::shared_ptr<Ring_> r; void srl_resolve(Srl::Context& c) { c("r", r); } };
PBT_PROBE(cyclic_graph)
{
    Root_ a, b; a.r = std::make_shared<Ring_>(); a.r->next = a.r; std::string out;
    auto m = thrown([&] { auto v = Srl::Tree().store(a, Srl::PJson()); Srl::Tree().restore(b, v, Srl::PJson()); });
    if(m.size()) out = "restoring an object which refers to itself throws: " + m; else if(!b.r || b.r->next != b.r) out = "cycle isn't restored";
    if(b.r) b.r->next.reset();
    a.r->next.reset();
    return out;
}
