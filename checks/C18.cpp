// C18: reusing a Tree or parser is the same as using fresh ones.
#include "dyn.hpp"
#include "mutate.hpp"
#include "poly.hpp"
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C18", "histories of 2-14 operations (store, restore, load_object, load_source, to_source of trees and nodes, pack, unpack, insert, remove, clear, move; on good and broken input, with user code that throws at a random step and "
         "failing output) on three Trees and one parser object per format, each compared with the same operation on fresh objects; non-trivial: an operation follows a failed one or one with another parser or Tree")

struct Parsers { Srl::PJson jc{ true }, js{ false }; Srl::PMsgPack mp; Srl::PSrl sr; template<class F> auto with(Fmt f, F&& fn) { switch(f) { case JC: return fn(jc); case JS: return fn(js); case MP: return fn(mp); default: return fn(sr); } } };
// an output that fails after n bytes
struct FailBuf : std::streambuf { size_t left; explicit FailBuf(size_t n) : left(n) { } int_type overflow(int_type c) override { if(!left) return traits_type::eof(); left--; return c; } std::streamsize xsputn(const char*, std::streamsize n) override { if((size_t)n > left) { auto l = left; left = 0; return (std::streamsize)l; } left -= n; return n; } };

// the outcome of an operation
struct Res { std::string err; Bytes bytes; std::shared_ptr<poly::Holder> h; std::shared_ptr<Dyn> d; Doc doc; bool has_doc = false; };
static std::string differs(const Res& a, const Res& b)
{
    if(a.err != b.err) return "exception '" + b.err + "' instead of '" + a.err + "'";
    if(a.bytes != b.bytes) return "output " + quote(b.bytes, 700) + "\ninstead of " + quote(a.bytes, 700);
    if(a.h && a.err.empty()) { poly::Iso i; if(!a.h->equal(*b.h, i)) return "object: " + i.why; }
    if(a.d && a.err.empty()) { dyn::Cmp m; if(!a.d->equal(*b.d, m, "obj")) return "object: " + m.why; }
    std::string why; if(a.has_doc && a.err.empty() && !doc::equal(a.doc, b.doc, &why)) return "document: " + why;
    return "";
}
typedef std::function<Res(Srl::Tree&, Parsers&)> Op;
template<class F> static Res res(F&& fn) { Res r; r.err = thrown([&] { fn(r); }); poly::state().fault = -1; return r; }
struct Data { std::shared_ptr<poly::Holder> h; std::shared_ptr<Dyn> d; Doc doc; };
enum Effect { Keeps, Sets, Adds, Unknown };
struct Step { std::string name; Op op; Effect effect = Keeps; };

static Step draw(Case& c, Gen& g, const Data& x, const std::vector<Bytes>* src, bool content)
{
    Step s; Fmt f = pick_fmt(c); bool dynobj = c.flip(); auto h = x.h; auto d = x.d; std::string fn = name(f);
    long fault = c.chance(1, 5) ? (long)c.draw(30) : -1;
    std::string ft = fault >= 0 ? " with user code throwing" : "";
    auto arm = [fault] { poly::state().steps = 0; poly::state().fault = fault; };
    auto input = [&](int k) { Bytes b = src[f][(size_t)k]; if(c.chance(1, 3)) { b = c.flip() ? b.substr(0, c.draw(b.size())) : mutate(c, b, f, 2); } return b; };
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    switch(c.weighted({ 12, 12, 10, 10, 8, 10, 10, 8, 6, 6, 4, 4 })) {
        case 0: { s.name = fn + " store" + ft; if(dynobj) s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { p.with(f, [&](auto& q) { r.bytes = str(t.store(*d, q)); }); }); };
            else s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { arm(); p.with(f, [&](auto& q) { r.bytes = str(t.store(*h, q)); }); }); }; break; }
        case 1: { Bytes b = input(dynobj ? 1 : 0); s.name = fn + " restore" + ft; s.effect = Unknown;
            if(dynobj) s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { r.d = std::make_shared<Dyn>(); source(via, b, chunk, [&](auto& i) { p.with(f, [&](auto& q) { t.restore(*r.d, i, q); }); }); }); };
            else s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { r.h = std::make_shared<poly::Holder>(); arm(); source(via, b, chunk, [&](auto& i) { p.with(f, [&](auto& q) { t.restore(*r.h, i, q); }); }); }); }; break; }
        case 2: { s.name = "load_object" + ft; s.effect = fault >= 0 && !dynobj ? Unknown : Sets;
            if(dynobj) s.op = [=](Srl::Tree& t, Parsers&) { return res([&](Res& r) { t.load_object(*d); r.doc = dump(t.root()); r.has_doc = true; }); };
            else s.op = [=](Srl::Tree& t, Parsers&) { return res([&](Res& r) { arm(); t.load_object(*h); r.doc = dump(t.root()); r.has_doc = true; }); }; break; }
        case 3: { Bytes b = input(2 + (int)c.draw(2)); s.name = fn + " load_source"; s.effect = Sets;
            s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { source(via, b, chunk, [&](auto& i) { p.with(f, [&](auto& q) { t.load_source(i, q); }); }); r.doc = dump(t.root()); r.has_doc = true; }); }; break; }
        case 4: { if(!content) return draw(c, g, x, src, content); bool stream = c.flip(); s.name = fn + " to_source";
            s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { p.with(f, [&](auto& q) { if(stream) { std::ostringstream o; t.to_source(o, q); r.bytes = o.str(); } else r.bytes = str(t.to_source(q)); }); r.doc = dump(t.root()); r.has_doc = true; }); }; break; }
        case 5: { s.name = fn + " pack" + ft; s.effect = Unknown; bool stream = c.flip();
            s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { arm(); p.with(f, [&](auto& q) { if(stream) { std::ostringstream o; t.pack(o, q, "n", 5, "h", *h, "d", *d, "last", "text"); r.bytes = o.str(); } else { std::vector<uint8_t> v; t.pack(v, q, "n", 5, "h", *h, "d", *d, "last", "text"); r.bytes = str(v); } }); }); }; break; }
        case 6: { Bytes b = input(4); s.name = fn + " unpack" + ft; s.effect = Unknown; bool order = c.flip(), un = c.flip();
            s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { r.h = std::make_shared<poly::Holder>(); r.d = std::make_shared<Dyn>(); int n = 0; std::string l; Srl::Union u; arm();
                source(via, b, chunk, [&](auto& i) { p.with(f, [&](auto& q) { if(un) { t.unpack(i, q, "h", u, "d", *r.d); u.copy_to(*r.h); } else if(order) t.unpack(i, q, "n", n, "h", *r.h, "d", *r.d, "last", l); else t.unpack(i, q, "d", *r.d, "n", n, "h", *r.h, "last", l); }); }); r.bytes = std::to_string(n) + l; }); }; break; }
        case 7: { if(!content) return draw(c, g, x, src, content); auto nm = g.name(); if(nm.empty()) nm = "n"; auto sub = g.tree(3, 8); size_t k = c.draw(4); s.name = "insert"; s.effect = Adds;
            s.op = [=](Srl::Tree& t, Parsers&) { return res([&](Res& r) { Srl::String n((const uint8_t*)nm.data(), nm.size(), Srl::Encoding::UTF8); if(k == 0) t.root().insert(n, 42); else if(k == 1) t.root().insert(n, *d); else if(k == 2) t.root().insert(n, *h); else { Srl::Tree o; make(o, sub); t.root().insert(n, o.root()); } r.doc = dump(t.root()); r.has_doc = true; }); }; break; }
        case 8: { if(!content) return draw(c, g, x, src, content); size_t at = c.draw(4); bool node = c.flip(); s.name = "remove"; s.effect = Adds;
            s.op = [=](Srl::Tree& t, Parsers&) { return res([&](Res& r) { if(node) t.root().remove_node(at); else t.root().remove_value(at); r.doc = dump(t.root()); r.has_doc = true; }); }; break; }
        case 9: { size_t n = c.draw(400); s.name = fn + " store to failing output"; int what = (int)c.draw(2); bool exc = c.flip();
            s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res&) { FailBuf fb(n); std::ostream o(&fb); if(exc) o.exceptions(std::ios::badbit | std::ios::failbit); p.with(f, [&](auto& q) { if(what) t.store(*d, o, q); else t.store(*h, o, q); }); }); }; break; }
        case 10: { if(!content) return draw(c, g, x, src, content); s.name = fn + " to_source of a node"; size_t at = c.draw(3);
            s.op = [=](Srl::Tree& t, Parsers& p) { return res([&](Res& r) { if(at < t.root().num_nodes()) p.with(f, [&](auto& q) { r.bytes = str(t.root().node(at).to_source(q)); }); }); }; break; }
        default: { if(!content) return draw(c, g, x, src, content); s.name = "paste"; s.op = [=](Srl::Tree& t, Parsers&) { return res([&](Res& r) { if(dynobj) { r.d = std::make_shared<Dyn>(); t.root().paste(*r.d); } else { r.h = std::make_shared<poly::Holder>(); arm(); t.root().paste(*r.h); } }); }; break; }
    }
    return s;
}
PBT_TEST(histories, 5000, 200000)
{
    poly::reset(c); Gen g(c); g.big = c.chance(1, 30); dyn::Opt o; dyn::draw_schema(g, o);
    std::vector<Data> data(2); std::vector<Bytes> src[2][4];
    auto mask = poly::state().mask;
    for(int k = 0; k < 2; k++) {
        auto& x = data[(size_t)k]; x.h = std::make_shared<poly::Holder>(); x.h->gen(g); mask &= poly::state().mask; x.d = std::make_shared<Dyn>(); x.d->gen(g); x.doc = g.any();
    }
    poly::state().mask = mask; if(!(mask & ((1u << poly::Holder::Fields) - 1))) throw pbt::Discard{};
    for(int k = 0; k < 2; k++) for(int f = 0; f < 4; f++) { auto& x = data[(size_t)k]; auto& s = src[k][f]; with((Fmt)f, [&](auto& p) {
        s.push_back(str(Srl::Tree().store(*x.h, p))); s.push_back(str(Srl::Tree().store(*x.d, p))); s.push_back(wild(c, (Fmt)f, x.doc)); s.push_back(s[0]);
        std::vector<uint8_t> v; Srl::Tree().pack(v, p, "n", 5, "h", *x.h, "d", *x.d, "last", "text"); s.push_back(str(v)); }); }
    Parsers parsers; Srl::Tree trees[3];
    // how to make the content of each Tree from nothing; valid as long as it's known
    std::vector<Op> recipe[3]; bool known[3] = { true, true, true };
    size_t n = 2 + c.draw(13); std::string history; bool failed = false; int last = -1;
    for(size_t i = 0; i < n; i++) {
        size_t w = c.draw(3);
        if(c.chance(1, 12)) {
            size_t v = c.draw(3); if(v == w) v = (w + 1) % 3; history += "T" + std::to_string(v) + " = move(T" + std::to_string(w) + ")\n";
            if(c.flip()) { trees[v] = std::move(trees[w]); } else { Srl::Tree tmp(std::move(trees[w])); trees[v] = std::move(tmp); }
            recipe[v] = recipe[w]; known[v] = known[w]; recipe[w].clear(); known[w] = true; c.nontrivial(); continue;
        }
        if(c.chance(1, 12)) { bool obj = thrown([&] { trees[w].clear(); }).empty() && trees[w].root().type() == Srl::Type::Object; history += "T" + std::to_string(w) + ".clear()\n"; recipe[w].clear(); known[w] = obj; if(obj) CHECK(c, trees[w].root().num_nodes() + trees[w].root().num_values() == 0, "not empty after clear()\n" << history); continue; }
        int k = (int)c.draw(2); Step s = draw(c, g, data[(size_t)k], src[k], known[w]);
        history += "T" + std::to_string(w) + " " + s.name; c.note(s.name);
        Srl::Tree fresh; Parsers fp; bool needs = s.effect == Adds || s.effect == Keeps;
        if(needs && known[w]) for(auto& op : recipe[w]) { Parsers other; op(fresh, other); }
        Res a = s.op(fresh, fp), b = s.op(trees[w], parsers);
        history += (b.err.empty() ? " ok" : " failed: " + b.err) + "\n";
        auto why = differs(a, b); CHECK(c, why.empty(), "step " << i << " differs from fresh objects: " << why << "\nhistory:\n" << history);
        if(i && (failed || (int)w != last)) c.nontrivial();
        failed = !b.err.empty(); last = (int)w;
        switch(s.effect) {
            case Sets: if(b.err.empty()) { recipe[w] = { s.op }; known[w] = true; } else { recipe[w].clear(); known[w] = false; } break;
            case Adds: if(b.err.empty()) recipe[w].push_back(s.op); break;
            case Unknown: recipe[w].clear(); known[w] = false; break;
            case Keeps: break;
        }
    }
}
// the name table of one document isn't that of the next one: one parser, one Tree, documents with overlapping names
PBT_TEST(parsers, 3000, 100000)
{
    Gen g(c); Fmt f = pick_fmt(c); c.nontrivial(); size_t n = 2 + c.draw(5); Parsers p; Srl::Tree t; std::vector<Doc> ds; for(size_t i = 0; i < n; i++) { auto d = g.any(); ds.push_back(d); }
    std::string h;
    for(size_t i = 0; i < n; i++) {
        auto& d = ds[c.draw(n)]; Bytes good = wild(c, f, d); size_t how = c.draw(5); h += std::to_string(how);
        if(how == 0) { Bytes whole = encode(f, d), b = whole.substr(0, c.draw(whole.size())); CHECK(c, !thrown([&] { p.with(f, [&](auto& q) { t.load_source((const uint8_t*)b.data(), b.size(), q); }); }).empty(), "cut document accepted"); continue; }
        if(how == 1) { auto w = write_doc(f, d); Srl::Tree o; make(o, d); CHECK(c, p.with(f, [&](auto& q) { return str(o.to_source(q)); }) == w, "written with a used parser differs, after " << h); continue; }
        if(how == 2) { Srl::Tree o; make(o, d); Bytes w = p.with(f, [&](auto& q) { std::ostringstream s; o.to_source(s, q); return s.str(); }); CHECK(c, w == write_doc(f, d), "written with a used parser to a stream differs, after " << h); continue; }
        p.with(f, [&](auto& q) { t.load_source((const uint8_t*)good.data(), good.size(), q); });
        std::string why; CHECK(c, equal(dump(t.root()), load_doc(f, good), &why), "loaded with a used parser and Tree: " << why << ", after " << h << "\n" << quote(good, 500));
    }
}
