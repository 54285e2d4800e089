// C01: stored objects restore to equal objects in every format.
#include "dyn.hpp"
#include <set>
#include <map>
#include <tuple>
using namespace doc; using namespace br;
PBT_MAIN("C01", "structs with a run-time drawn schema (0-50 fields out of ~107 static field types: numbers, text, blobs, containers, maps, pairs, tuples, arrays, pointers, "
         "nested structs to 3 levels; srl_resolve or srl_store/srl_restore; named or positional) and random values, restored from every format along 6 routes into fresh or already used objects; "
         "non-trivial: at least one container, pointer or struct field, or 4 fields")

using dyn::Dyn;
static void same(Case& c, const Dyn& a, const Dyn& b, const std::string& how, const Bytes& bytes)
{
    dyn::Cmp m;
    CHECK(c, a.equal(b, m, "obj"), how << ": " << m.why << "\n" << dyn::show_schema() << "object " << show(a.doc(), 1200) << "\nbytes " << quote(bytes, 800));
}
static void target(Case& c, Gen& g, Dyn& d) { if(c.flip()) d.gen(g); }

PBT_TEST(objects, 12000, 300000)
{
    Gen g(c); dyn::Opt o; o.optional = c.chance(1, 4);
    dyn::draw_schema(g, o);
    Dyn a; a.gen(g);
    c.nontrivial(dyn::schema(0).size() >= 4 || dyn::has_kind(dyn::Scope | dyn::Struct));
    for(auto& s : dyn::schema(0)) c.label(std::string("field ") + s.kind->name);
    c.note(dyn::show_schema(), show(a.doc(), 1000));
    bool stream = c.flip(); size_t chunk = pick_chunk(c); Via via = pick_via(c);
    { Fmt f = pick_fmt(c);
        std::string n = name(f);
        auto wr = [&](auto&& fn) { return with(f, [&](auto& p) -> Bytes {
            if(stream) { std::ostringstream os; fn(p, Srl::Lib::Out::Source(os)); return os.str(); }
            std::vector<uint8_t> v; fn(p, Srl::Lib::Out::Source(v)); return str(v); }); };
        auto step = [&](const std::string& how, const Bytes& b, auto&& fn) {
            auto m = thrown(fn);
            CHECK(c, m.empty(), n << " " << how << " threw: " << m << "\n" << dyn::show_schema() << "object " << show(a.doc(), 1200) << "\nbytes " << quote(b, 800));
        };
        Bytes direct, doc, packed;
        step("store", "", [&] { direct = wr([&](auto& p, Srl::Lib::Out::Source s) { Srl::Tree().store(a, s, p); }); });
        step("load_object/to_source", "", [&] { doc = wr([&](auto& p, Srl::Lib::Out::Source s) { Srl::Tree t; t.load_object(a); t.to_source(s, p); }); });
        int before = 7; double after = 1.5;
        step("pack", "", [&] { packed = wr([&](auto& p, Srl::Lib::Out::Source s) { Srl::Tree().pack(s, p, "before", before, "the object", a, "after", after); }); });
        // direct restore
        for(auto* b : { &direct, &doc }) {
            Dyn t; target(c, g, t);
            step("restore", *b, [&] { source(via, *b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(t, s, p); }); }); });
            same(c, a, t, n + " restore", *b);
            // through a document
            Srl::Tree tree; step("load_source", *b, [&] { load(tree, f, *b, via, chunk); });
            Dyn u; target(c, g, u);
            step("root().paste", *b, [&] { tree.root().paste(u); });
            same(c, a, u, n + " paste from the root", *b);
            if(!dyn::has_kind(dyn::Shared)) {      // unwrapping shared objects of one document twice shares them
                Dyn v; step("root().unwrap", *b, [&] { v = tree.root().unwrap<Dyn>(); });
                same(c, a, v, n + " unwrap of the root", *b);
            }
        }
        // named items
        { Dyn t; target(c, g, t); int x = 0; double y = 0;
          step("unpack", packed, [&] { source(via, packed, chunk, [&](auto& s) { with(f, [&](auto& p) {
              if(c.flip()) Srl::Tree().unpack(s, p, "before", x, "the object", t, "after", y); else Srl::Tree().unpack(s, p, "after", y, "the object", t, "before", x); }); }); });
          same(c, a, t, n + " unpack", packed);
          CHECK(c, x == 7 && y == 1.5, n << " unpack: other items " << x << " " << y); }
        { Srl::Union u;
          step("unpack as Union", packed, [&] { source(via, packed, chunk, [&](auto& s) { with(f, [&](auto& p) {
              Srl::Tree tr; Dyn t; tr.unpack(s, p, "the object", u); u.copy_to(t); same(c, a, t, n + " unpack to a Union, copy_to", packed); }); }); }); }
    }
    // the document of an object without any format in between; compared with what an object of these types is documented as
    { Srl::Tree t; t.load_object(a);
      if(!dyn::has_kind(dyn::Shared | dyn::Unordered)) { std::string why; auto got = dump(t.root()); CHECK(c, equal(norm(got), norm(a.doc()), &why), "document of the object: " << why << "\n" << dyn::show_schema() << "expected " << show(a.doc()) << "\ngot " << show(got)); }
      Dyn u; target(c, g, u); auto m = thrown([&] { t.root().paste(u); }); CHECK(c, m.empty(), "paste from load_object: " << m << "\n" << dyn::show_schema());
      same(c, a, u, "paste from load_object", ""); }
    // inserted into another document
    { Srl::Tree t; t.root().insert("x", 1, "o", a, "y", false); Dyn u; target(c, g, u);
      auto m = thrown([&] { t.root().node("o").paste(u); }); CHECK(c, m.empty(), "node.paste: " << m); same(c, a, u, "insert and paste", ""); 
      Dyn w; m = thrown([&] { t.get("o").copy_to(w); }); CHECK(c, m.empty(), "Union::copy_to: " << m); same(c, a, w, "insert and Union::copy_to", ""); }
}

// containers, pairs, maps as top-level objects
namespace {
template<class T> void top(Case& c, Gen& g, const T& a, Srl::Type type)
{
    Fmt f = pick_fmt(c); Bytes st, ld; std::string n = name(f);
    with(f, [&](auto& p) { st = str(Srl::Tree().store(a, p)); });
    Srl::Tree t; if(c.flip()) { t.root().insert("old", 1, "scope", std::vector<int>{ 1 }); } if(c.flip()) { Doc d = g.tree(1, 5); Fmt k = pick_fmt(c); load(t, k, encode(k, d)); }
    t.load_object(a); CHECK(c, t.root().type() == type, "root of a loaded top-level container is of the wrong scope type");
    { T x; auto e = thrown([&] { t.root().paste(x); }); CHECK(c, e.empty() && x == a, "load_object + paste: " << e); }
    ld = write(t, f); CHECK(c, ld == st, n << ": stored directly " << quote(st, 500) << ", loaded and written " << quote(ld, 500));
    auto via = pick_via(c); auto ch = pick_chunk(c);
    { T x; auto e = thrown([&] { with(f, [&](auto& p) { source(via, st, ch, [&](auto& s) { Srl::Tree().restore(x, s, p); }); }); }); CHECK(c, e.empty() && x == a, n << " restore: " << e << " " << quote(st, 500)); }
    { T x; auto e = thrown([&] { load(t, f, st, via, ch); t.root().paste(x); }); CHECK(c, e.empty() && x == a, n << " load_source + paste: " << e << " " << quote(st, 500)); CHECK(c, t.root().type() == type, "root of a loaded document"); }
    { auto x = t.root().template unwrap<T>(); CHECK(c, x == a, n << " unwrap of the root"); }
    { Srl::Tree u; Bytes o = write(t, f); CHECK(c, o == st, n << ": a loaded document is written as " << quote(o, 500) << " instead of " << quote(st, 500)); }
}
}
PBT_TEST(top_level, 6000, 300000)
{
    using Srl::Type; Gen g(c); auto n = [&] { return c.draw(c.chance(1, 20) ? 200 : 6); }; c.nontrivial();
    switch(c.draw(10)) {
        case 0: { std::vector<int> v(n()); for(auto& x : v) x = (int)g.integer_for(I32); top(c, g, v, Type::Array); break; }
        case 1: { std::list<std::string> v(n()); for(auto& x : v) x = g.text(8); top(c, g, v, Type::Array); break; }
        case 2: { std::map<std::string, double> v; for(size_t i = n(); i--;) v[g.name()] = (double)c.draw(1000) / 8; top(c, g, v, Type::Array); break; }
        case 3: { std::set<int64_t> v; for(size_t i = n(); i--;) v.insert((int64_t)g.integer_for(I64)); top(c, g, v, Type::Array); break; }
        case 4: { std::vector<std::vector<uint16_t>> v(n()); for(auto& x : v) x.assign(c.draw(4), (uint16_t)c.draw(65536)); top(c, g, v, Type::Array); break; }
        case 5: { std::map<std::string, std::list<double>> v; for(size_t i = n(); i--;) v[g.name()].assign(c.draw(4), (double)c.draw(1000) / 16); top(c, g, v, Type::Array); break; }
        case 6: { std::vector<std::map<int, std::string>> v(n()); for(auto& x : v) for(size_t i = c.draw(3); i--;) x[(int)c.draw(9)] = g.text(3); top(c, g, v, Type::Array); break; }
        case 7: { std::vector<std::tuple<int, std::string>> v; for(size_t i = n(); i--;) v.emplace_back((int)c.draw(9), g.text(5)); top(c, g, v, Type::Array); break; }
        case 8: { std::multimap<int, std::vector<std::string>> v; for(size_t i = n(); i--;) v.emplace((int)c.draw(5), std::vector<std::string>(c.draw(3), g.text(4))); top(c, g, v, Type::Array); break; }
        default: { std::vector<std::list<std::set<std::string>>> v(n()); for(auto& x : v) { x.resize(c.draw(3)); for(auto& y : x) for(size_t i = c.draw(3); i--;) y.insert(g.text(4)); } top(c, g, v, Type::Array); break; }
    }
}

// listed in KNOWN_FINDINGS
struct Inner { int n = 1; void srl_resolve(Srl::Context& c) { c("n", n); } };
struct NullPtr { std::unique_ptr<Inner> u; std::shared_ptr<Inner> s; std::weak_ptr<Inner> w; Inner* r = nullptr; int which = 0; ~NullPtr() { delete r; }
    void srl_resolve(Srl::Context& c) { if(which == 0) c("p", u); else if(which == 1) c("p", s); else if(which == 2) c("p", w); else c("p", r); } };
PBT_PROBE(null_pointer_to_scope)
{
    for(int which = 0; which < 4; which++) for(int f = 0; f < 4; f++) {
        NullPtr a, b; a.which = b.which = which; b.u.reset(new Inner); b.s = std::make_shared<Inner>(); b.w = b.s; b.r = new Inner;
        auto m = thrown([&] { with((Fmt)f, [&](auto& p) { auto v = Srl::Tree().store(a, p); Srl::Tree().restore(b, v, p); }); });
        if(m.size()) return "restoring a null pointer to a struct throws: " + m;
        if(which == 0 ? !!b.u : which == 1 ? !!b.s : which == 2 ? !!b.w.lock() : !!b.r) return "null pointer to a struct isn't restored to null";
    }
    return "";
}
PBT_PROBE(null_pointer_to_scope_in_container)
{
    std::vector<std::unique_ptr<Inner>> a(3), b; a[0].reset(new Inner); a[2].reset(new Inner);
    auto v = Srl::Tree().store(a, Srl::PSrl()); Srl::Tree().restore(b, v, Srl::PSrl());
    return b.size() != 3 || b[1] ? "null element of a container of pointers to structs is dropped" : "";
}
