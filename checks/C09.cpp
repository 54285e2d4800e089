// C09: truncated documents are rejected.
#include "dyn.hpp"
#include "mutate.hpp"
#include <set>
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C09", "documents of every format from independent encoders and from the library, cut at every point (large ones: near the ends, around buffer boundaries and random points), loaded, restored and unpacked "
         "from exactly sized memory and from streams; a case is one document with all its cuts; non-trivial: at least 10 cuts in a document with 3 or more items")

static std::vector<size_t> cuts(Case& c, size_t n, size_t most)
{
    std::vector<size_t> r;
    if(n <= most) { for(size_t i = 0; i < n; i++) r.push_back(i); return r; }
    most = std::max<size_t>(8, std::min(most, 1000000 / n));          // large documents are expensive
    size_t e = most >= 40 ? 12 : 3;
    std::set<size_t> s; for(size_t i = 0; i < e; i++) { s.insert(i); s.insert(n - 1 - i); }
    if(most >= 40) for(size_t k = 1024; k < n; k *= 2) { s.insert(k - 1); s.insert(k); s.insert(k + 1 < n ? k + 1 : k); }
    while(s.size() < most) s.insert(c.draw(n));
    for(auto x : s) if(x < n) r.push_back(x);
    return r;
}
static Srl::Lib::In::Source mem(const std::unique_ptr<uint8_t[]>& p, size_t n) { return Srl::Lib::In::Source(p.get(), n); }

PBT_TEST(load, 2500, 100000)
{
    Gen g(c); Fmt f = pick_fmt(c); g.nonfinite = !text(f);
    Doc d = g.any();
    Bytes b; switch(c.draw(3)) { case 0: b = write_doc(f, d); break; default: b = wild(c, f, d, false); break; }
    if(text(f)) while(b.size() && b.back() != '}' && b.back() != ']') b.pop_back();        // trailing whitespace or comment
    { Srl::Tree t; auto m = thrown([&] { br::load(t, f, b); }); CHECK(c, m.empty(), "complete document refused: " << m << " " << quote(b, 500)); }
    auto cs = cuts(c, b.size(), 150);
    c.nontrivial(cs.size() >= 10 && nodes(d) >= 3);
    c.label("cuts", cs.size());
    c.note(name(f), " ", quote(b, 700));
    size_t chunk = pick_chunk(c); Srl::Tree reused;
    for(auto n : cs) {
        bool stream = c.chance(1, 3), reuse = c.flip();
        Srl::Tree fresh; auto& t = reuse ? reused : fresh;
        Bytes part = b.substr(0, n);
        auto m = thrown([&] { br::load(t, f, part, stream ? Chunked : Pointer, chunk); });
        CHECK(c, !m.empty(), name(f) << " document of " << b.size() << " bytes cut after " << n << " was accepted from " << (stream ? "a stream" : "memory") << " as " << show(dump(t.root()), 500) << "\nbytes " << quote(part, 700) << "\ncomplete " << show(d, 500));
    }
    { auto m = thrown([&] { br::load(reused, f, b); }); CHECK(c, m.empty(), "tree can't be used after the failures: " << m);
      std::string why; CHECK(c, text_equal(norm(dump(reused.root())), norm(br::expect(f, d)), &why), "tree after the failures: " << why); }
}

PBT_TEST(objects, 1500, 60000)
{
    Gen g(c); dyn::Opt o; dyn::draw_schema(g, o);
    Fmt f = pick_fmt(c); if(text(f)) g.negzero = false;
    Dyn a; a.gen(g); if(dyn::budget() < 0) { }
    int variant = (int)c.draw(3);
    Bytes b = variant == 0 ? with(f, [&](auto& p) { return str(Srl::Tree().store(a, p)); }) : wild(c, f, a.doc(), false);
    Bytes pb; { std::vector<uint8_t> v; with(f, [&](auto& p) { Srl::Tree().pack(v, p, "num", 77, "obj", a, "txt", std::string("some text"), "list", std::vector<int>{ 1, 2, 3 }); }); pb = str(v); }
    if(text(f)) while(b.size() && b.back() != '}' && b.back() != ']') b.pop_back();
    c.note(dyn::show_schema(), name(f), " ", quote(b, 600));
    size_t chunk = pick_chunk(c), early = 0;
    auto cs = cuts(c, b.size(), 60);
    c.nontrivial(cs.size() >= 10 && dyn::schema(0).size() >= 3);
    c.label("cuts", cs.size());
    bool dirty = c.flip(); Dyn start; if(dirty) start.gen(g);
    auto verify = [&](const Dyn& t, size_t n, const char* how, const Bytes& all) {
        dyn::Cmp cm; CHECK(c, a.equal(t, cm, "obj"), name(f) << " " << how << " accepted a document of " << all.size() << " bytes cut after " << n << " and gave a different object: " << cm.why << "\n" << dyn::show_schema() << "\nbytes " << quote(all.substr(0, n), 700));
    };
    bool optional = false; for(int l = 0; l < dyn::LEVELS; l++) for(auto& s : dyn::schema(l)) optional |= s.optional;
    for(auto n : cs) {
        std::unique_ptr<uint8_t[]> p(new uint8_t[n]); memcpy(p.get(), b.data(), n);
        Dyn t(start);
        auto m = thrown([&] { if(c.chance(1, 3)) { ChunkBuf cb(b.substr(0, n), chunk); std::istream i(&cb); Srl::Lib::In::Source s(i); with(f, [&](auto& q) { Srl::Tree().restore(t, s, q); }); }
                              else with(f, [&](auto& q) { Srl::Tree().restore(t, mem(p, n), q); }); });
        if(m.empty()) { early++; verify(t, n, "restore", b); }
    }
    auto cp = cuts(c, pb.size(), 60); c.label("cuts", cp.size());
    for(auto n : cp) {
        std::unique_ptr<uint8_t[]> p(new uint8_t[n]); memcpy(p.get(), pb.data(), n);
        Dyn t(start); int num = 0; std::string txt = "stale"; std::vector<int> l = { 9 }; int which = (int)c.draw(5);
        auto m = thrown([&] { with(f, [&](auto& q) {
            switch(which) { case 0: Srl::Tree().unpack(mem(p, n), q, "num", num); break;
                            case 1: Srl::Tree().unpack(mem(p, n), q, "num", num, "obj", t); break;
                            case 2: Srl::Tree().unpack(mem(p, n), q, "txt", txt, "obj", t); break;
                            case 3: Srl::Tree().unpack(mem(p, n), q, "list", l, "num", num); break;
                            default: Srl::Tree().unpack(mem(p, n), q, "obj", t, "txt", txt, "list", l); } }); });
        if(!m.empty()) continue;
        early++;
        if(which == 0 || which == 1 || which == 3) CHECK(c, num == 77, "unpack of a document cut after " << n << " of " << pb.size() << ": number is " << num << " " << quote(pb.substr(0, n), 400));
        if(which == 1 || which == 2 || which == 4) verify(t, n, "unpack", pb);
        if(which == 2 || which == 4) CHECK(c, txt == "some text", "unpack of a document cut after " << n << " of " << pb.size() << ": text is '" << txt << "' " << quote(pb.substr(0, n), 400));
        if(which >= 3) CHECK(c, (l == std::vector<int>{ 1, 2, 3 }), "unpack of a document cut after " << n << " of " << pb.size() << ": list differs " << quote(pb.substr(0, n), 400));
    }
    c.label("cuts behind everything requested", early);
}
