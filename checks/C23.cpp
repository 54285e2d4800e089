// C23: owned objects are destroyed exactly once, also when a restore fails.
#include "poly.hpp"
#include "mutate.hpp"
#include <deque>
#include <set>
#include <sanitizer/allocator_interface.h>
using namespace doc; using namespace br; using namespace poly;
PBT_MAIN("C23", "objects with 25 + 17 kinds of owning members, restored into fresh or populated targets in every format and route; exceptions injected at every construction and resolve step of the user's types, "
         "documents cut, mutated and with fields removed or ill-typed; instance counts and allocated bytes afterwards have to be as before; non-trivial: the operation was aborted at a point inside of it")

// more owners
static unsigned more_mask = ~0u;
struct More : Counted {
    Srl::Lib::HTable<std::string, std::shared_ptr<Plain>> h; Srl::Lib::HTable<std::string, std::unique_ptr<Shape>> hu; std::unique_ptr<Plain> arr[3]; std::unique_ptr<Shape> arrs[2];
    std::tuple<std::unique_ptr<Shape>, std::shared_ptr<Plain>, int> tp; std::pair<std::unique_ptr<Plain>, std::unique_ptr<Shape>> pr; std::vector<std::unique_ptr<Shape>>* rv = nullptr; std::unique_ptr<std::vector<std::unique_ptr<Shape>>> uv;
    std::shared_ptr<std::list<std::unique_ptr<Circle>>> sl; std::deque<std::vector<std::unique_ptr<Plain>>> dv; std::set<Plain> set; std::unique_ptr<std::map<int, std::shared_ptr<Plain>>> um; int* ri = nullptr; std::string* rs = nullptr;
    std::unique_ptr<int> ui; std::unique_ptr<std::string> us; Plain* rp[2] = { nullptr, nullptr }; std::vector<std::string> vs; Plain plain; std::shared_ptr<Shape> rec[2][2];
    static const int Fields = 20;
    More() { } More(const More&) = delete;
    ~More() { delete rv; delete ri; delete rs; delete rp[0]; delete rp[1]; }
    void srl_resolve(Srl::Context& c)
    {
        step(); auto& m = more_mask;
        if(m & 1) c("h", h); if(m & 2) c("hu", hu); if(m & 4) c("arr", arr); if(m & 8) c("arrs", arrs); if(m & 16) c("tp", tp); if(m & 32) c("pr", pr); if(m & 64) c("rv", rv); if(m & 128) c("uv", uv); if(m & 256) c("sl", sl); if(m & 512) c("dv", dv);
        if(m & 1024) c("set", set); if(m & 2048) c("um", um); if(m & 4096) c("ri", ri); if(m & 8192) c("rs", rs); if(m & 16384) c("ui", ui); if(m & 32768) c("us", us); if(m & 65536) c("rp", rp); if(m & 131072) c("vs", vs); if(m & 262144) c("plain", plain); if(m & 524288) c("rec", rec);
        step();
    }
    void gen(Gen& g)
    {
        auto& c = g.c; auto pl = [&] { auto p = std::make_unique<Plain>(); p->gen(g); return p; }; auto n = [&] { return c.draw(3); };
        h.clear(); hu.clear(); for(size_t i = n(); i--;) h.insert("k" + std::to_string(i), std::shared_ptr<Plain>(pl())); for(size_t i = n(); i--;) hu.insert("k" + std::to_string(i), make_shape(g, 2));
        for(auto& x : arr) x = pl(); for(auto& x : arrs) x = make_shape(g, 2); tp = std::make_tuple(make_shape(g, 2), std::shared_ptr<Plain>(pl()), 3); pr.first = pl(); pr.second = make_shape(g, 2);
        delete rv; rv = nullptr; rv = new std::vector<std::unique_ptr<Shape>>(); uv.reset(new std::vector<std::unique_ptr<Shape>>()); sl = std::make_shared<std::list<std::unique_ptr<Circle>>>();
        for(size_t i = n(); i--;) rv->push_back(make_shape(g, 2)); for(size_t i = n(); i--;) uv->push_back(make_shape(g, 2)); for(size_t i = n(); i--;) sl->push_back(make_circle(g, 2));
        dv.clear(); for(size_t i = n(); i--;) { dv.emplace_back(); for(size_t j = n(); j--;) dv.back().push_back(pl()); } set.clear(); for(size_t i = n(); i--;) set.insert(*pl());
        um.reset(new std::map<int, std::shared_ptr<Plain>>()); for(size_t i = n(); i--;) (*um)[(int)i] = std::shared_ptr<Plain>(pl());
        delete ri; ri = nullptr; ri = new int(4); delete rs; rs = nullptr; rs = new std::string(g.text(40)); ui.reset(new int(5)); us.reset(new std::string(g.text(40))); for(auto& x : rp) { delete x; x = nullptr; x = pl().release(); }
        vs.clear(); for(size_t i = n(); i--;) vs.push_back(g.text(40)); plain.gen(g); for(auto& r : rec) for(auto& x : r) x = std::shared_ptr<Shape>(make_shape(g, 3));
        forget();
    }
};
template<class T> void populate(Gen& g, T& t) { auto m = state().mask; t.gen(g); state().mask = m; }
static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }

struct Route { const char* name; bool packed; int k; };
static const Route routes[] = { { "restore", false, 0 }, { "load_source + paste", false, 1 }, { "unpack", true, 2 }, { "unpack Union + copy_to", true, 3 }, { "restore from a stream", false, 4 }, { "load_source + paste_field", true, 5 }, { "restore<T>()", false, 6 } };
template<class T> void run(const Route& r, Fmt f, const Bytes& b, const Bytes& pb, Srl::Tree& t, T& o)
{
    auto* p = (const uint8_t*)b.data(); auto* q = (const uint8_t*)pb.data();
    with(f, [&](auto& x) {
        switch(r.k) {
            case 0: t.restore(o, p, b.size(), x); break;
            case 1: t.load_source(p, b.size(), x); t.root().paste(o); break;
            case 2: t.unpack({ q, pb.size() }, x, "obj", o); break;
            case 3: { Srl::Union u; t.unpack({ q, pb.size() }, x, "obj", u); u.copy_to(o); break; }
            case 4: { ChunkBuf cb(b, 64); std::istream i(&cb); t.restore(o, i, x); break; }
            case 5: t.load_source(q, pb.size(), x); t.root().paste_field(Srl::String("obj"), o); break;
            default: t.restore(o, p, b.size(), x); t.restore(o, p, b.size(), x); break;
        } });
}
// one attempt: everything made by it is gone afterwards
enum Kind_ { Steps, None };
template<class T> struct Attempt { std::string err; long n = 0; };
template<class T> static Attempt<T> attempt(Case& c, const Route& r, Fmt f, const Bytes& b, const Bytes& pb, Kind_ k, long at, T& target, Srl::Tree& tree)
{
    Attempt<T> a; state().steps = 0; (void)c;
    try { if(k == Steps) state().fault = at; run(r, f, b, pb, tree, target); }
    catch(const std::exception& e) { state().fault = -1; a.err = e.what(); if(a.err.empty()) a.err = "exception"; }
    state().fault = -1; a.n = state().steps;
    return a;
}
// the whole life of a target; returns whether the attempt failed
template<class T, class Eq> static std::string life(Case& c, Gen& g, const Route& r, Fmt f, const Bytes& b, const Bytes& pb, const Bytes& good, Kind_ k, long at, int start, int then, const std::string& what, Eq&& eq)
{
    std::string err; long live = state().live;
    {
        auto t = std::make_unique<T>(); Srl::Tree tree; if(start) populate(g, *t);
        err = attempt<T>(c, r, f, b, pb, k, at, *t, tree).err;
        // afterwards: destroyed; restored to again with the same Tree or another; populated again
        if(then == 1 || then == 2) {
            auto m = thrown([&] { Srl::Tree other; with(f, [&](auto& p) { (then == 1 ? tree : other).restore(*t, (const uint8_t*)good.data(), good.size(), p); }); });
            CHECK(c, m.empty(), what << ", " << r.name << " (" << err << "): restoring again threw " << m);
            std::string w = eq(*t); CHECK(c, w.empty(), what << ", " << r.name << " (" << err << "): restored again: " << w);
        }
        else if(then == 3) populate(g, *t);
        if(then == 4) { t.reset(); tree.clear(); CHECK(c, state().live == live, what << ", " << r.name << " (" << err << "): " << state().live - live << " objects left after clear()"); }
    }
    CHECK(c, state().live == live, what << ", " << r.name << (start ? " into a populated object" : "") << " (" << err << "): " << state().live - live << " objects left over");
    return err;
}
template<class T, class Eq> static void faults(Case& c, Gen& g, Fmt f, const Bytes& b, const Bytes& pb, const std::string& shown, Eq&& eq)
{
    auto& r = routes[c.draw(7)]; Kind_ k = Steps; int start = (int)c.draw(2);
    long n; { T t; Srl::Tree tree; auto a = attempt<T>(c, r, f, b, pb, k, -1, t, tree); CHECK(c, a.err.empty(), r.name << " threw " << a.err << " " << shown); n = a.n; }
    c.note(shown, "\n", r.name, ", steps: ", n, "\n", name(f), " ", quote(b, 800));
    if(n == 0) throw pbt::Discard{};
    size_t tries = n <= 12 ? (size_t)n : 12;
    for(size_t i = 0; i < tries; i++) {
        long at = n <= 12 ? (long)i : (long)c.draw((uint64_t)n); int then = (int)c.draw(5);
        auto what = std::string("exception at step ") + std::to_string(at) + " of " + std::to_string(n);
        auto err = life<T>(c, g, r, f, b, pb, b, k, at, start, then, what, eq);
        CHECK(c, !err.empty(), what << ": no exception arrived");
        c.nontrivial(!err.empty());
        // all memory as well, not only the counted objects
        auto once = [&] { T t; Srl::Tree tree; bool thrown_ = false; state().steps = 0;
            try { state().fault = at; run(r, f, b, pb, tree, t); } catch(const std::exception&) { thrown_ = true; }
            state().fault = -1; return thrown_; };
        once(); auto before = bytes(); once(); auto after = bytes();
        CHECK(c, before == after, what << ", " << r.name << ": " << (long)(after - before) << " bytes of memory left over");
    }
}
template<class T> static void stored(Fmt f, T& a, Bytes& b, Bytes& pb)
{
    with(f, [&](auto& p) { b = str(Srl::Tree().store(a, p)); std::vector<uint8_t> v; Srl::Tree().pack(v, p, "obj", a); pb = str(v); });
}
PBT_TEST(faults_holder, 1000, 60000)
{
    reset(c); Gen g(c); auto a = std::make_unique<Holder>(); a->gen(g); Fmt f = pick_fmt(c); Bytes b, pb; stored(f, *a, b, pb);
    faults<Holder>(c, g, f, b, pb, a->show(), [&](Holder& h) { Iso i; return a->equal(h, i) ? std::string() : i.why; });
}
PBT_TEST(faults_more, 1000, 60000)
{
    reset(c); Gen g(c); more_mask = c.chance(1, 3) ? ~0u : (unsigned)(c.draw64() & c.draw64()); auto a = std::make_unique<More>(); a->gen(g); Fmt f = pick_fmt(c); Bytes b, pb; stored(f, *a, b, pb);
    faults<More>(c, g, f, b, pb, "More " + hex(std::string((char*)&more_mask, 4)), [&](More&) { return std::string(); });
}
// documents which are cut, mutated or have something removed
template<class T> static void broken(Case& c, T& a, Gen& g, const std::string& shown)
{
    Fmt f = pick_fmt(c); Bytes b, pb; stored(f, a, b, pb); Bytes good = b; std::string what;
    switch(c.draw(3)) {
        case 0: { what = "cut"; size_t n = c.draw(b.size()); b.resize(n); pb.resize(std::min(pb.size(), n + c.draw(10))); break; }
        case 1: what = "mutated"; b = mutate(c, b, f, 3); pb = mutate(c, pb, f, 3); break;
        default: {
            what = "field changed"; auto d = decode(f, b); std::vector<Doc*> all; std::function<void(Doc&)> walk = [&](Doc& x) { for(auto& y : x.m) walk(y.second); all.push_back(&x); }; walk(d);
            for(size_t n = 1 + c.draw(2); n--;) { Doc& x = *all[c.draw(all.size())]; size_t k = c.draw(5);
                if(k == 0 && x.m.size()) { x.m.erase(x.m.begin() + c.draw(x.m.size())); all.clear(); walk(d); }
                else if(k == 1 && x.m.size()) x.m[c.draw(x.m.size())].first += "?";
                else if(k == 2 && !x.scope()) x = c.flip() ? Doc() : Doc::str("no such type or number");
                else if(k == 3 && !x.scope()) x = Doc::integer(c.draw(4));
                else if(k == 4 && x.m.size()) { auto e = x.m[c.draw(x.m.size())]; x.m.push_back(e); all.clear(); walk(d); } }
            b = encode(f, d); auto w = Doc::obj(); w.m.emplace_back("obj", d); pb = encode(f, w); } break;
    }
    c.note(shown, "\n", what, " ", name(f), " ", quote(b, 900));
    for(auto& r : routes) {
        int then = (int)c.draw(5); if(then == 1 || then == 2) then = c.flip() ? then : 0;
        long live = state().live; (void)live;
        auto err = life<T>(c, g, r, f, b, pb, good, None, -1, (int)c.draw(2), then, what, [](T&) { return std::string(); });
        c.nontrivial(!err.empty());
        auto once = [&] { T t; Srl::Tree tree; try { run(r, f, b, pb, tree, t); } catch(const std::exception&) { } };
        if(c.chance(1, 3)) { once(); auto before = bytes(); once(); auto after = bytes(); CHECK(c, before == after, what << ", " << r.name << " (" << err << "): " << (long)(after - before) << " bytes of memory left over"); }
    }
}
PBT_TEST(broken_holder, 1500, 60000) { reset(c); Gen g(c); auto a = std::make_unique<Holder>(); a->gen(g); broken(c, *a, g, a->show()); }
PBT_TEST(broken_more, 1500, 60000) { reset(c); Gen g(c); more_mask = c.chance(1, 3) ? ~0u : (unsigned)(c.draw64() & c.draw64()); auto a = std::make_unique<More>(); a->gen(g); broken(c, *a, g, "More"); }
// successful restores, several times over the same object: exactly the objects of the last one are left
PBT_TEST(replaced, 1500, 40000)
{
    reset(c); state().mask = ~0u; Gen g(c); Fmt f = pick_fmt(c); long live = state().live;
    std::vector<std::unique_ptr<Holder>> src; std::vector<Bytes> b, pb; std::vector<long> n;
    for(size_t i = 0, k = 2 + c.draw(2); i < k; i++) { long l = state().live; src.push_back(std::make_unique<Holder>()); src.back()->gen(g); state().mask = ~0u; n.push_back(state().live - l); b.emplace_back(); pb.emplace_back(); stored(f, *src.back(), b.back(), pb.back()); }
    long own = state().live; c.nontrivial();
    {
        Holder h; Srl::Tree tree;
        for(size_t i = 0; i < 4; i++) {
            size_t k = c.draw(src.size()); auto& r = routes[c.draw(7)];
            auto m = thrown([&] { if(c.flip()) run(r, f, b[k], pb[k], tree, h); else { Srl::Tree t; run(r, f, b[k], pb[k], t, h); } });
            tree.clear();
            CHECK(c, m.empty(), r.name << " threw " << m); Iso iso; CHECK(c, src[k]->equal(h, iso), r.name << ": " << iso.why);
            CHECK(c, state().live - own == n[k], r.name << ": " << state().live - own << " objects live, expected " << n[k]);
        }
    }
    CHECK(c, state().live == own, "objects left over: " << state().live - own);
    src.clear(); CHECK(c, state().live == live, "objects left over at the end");
}
