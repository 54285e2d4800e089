// C24: nesting is limited, exactly and harmlessly.
#include "bridge.hpp"
#include <memory>
#include <list>
using namespace doc; using namespace br;
PBT_MAIN("C24", "documents which are a chain of n nested scopes (objects and arrays mixed, siblings before and behind on the way), n around the limit (each of 1-140) and up to 3 million, in every format; loaded, unpacked, restored to "
         "recursive types of several kinds, skipped as unknown content at several places; non-trivial: n within 4 of the limit or beyond it")
static const size_t LIMIT = 128;

// written without recursion; independent of the library
struct Writer {
    Fmt f; Bytes o; std::vector<char> kinds; std::vector<bool> first; std::vector<Bytes> names;
    void vi(uint64_t v) { while(v > 127) { o += (char)(v | 128); v >>= 7; } o += (char)v; }
    void head(uint8_t fl, const Bytes& n)
    {
        bool in_obj = kinds.size() && kinds.back() == 'o';
        if(!in_obj) { o += (char)fl; return; }
        size_t i = 0; while(i < names.size() && names[i] != n) i++;
        if(i < names.size()) { o += (char)(fl | 6); vi(i); } else { o += (char)(fl | 2); vi(n.size()); o += n; names.push_back(n); }
    }
    void pre(const Bytes& n)
    {
        if(kinds.empty()) return;
        if(text(f)) { if(!first.back()) o += ','; first.back() = false; if(kinds.back() == 'o') o += '"' + n + "\":"; }
        if(f == MP && kinds.back() == 'o') { o += (char)(0xA0 | n.size()); o += n; }
    }
    void open(char k, const Bytes& n, size_t count)
    {
        pre(n);
        if(text(f)) o += k == 'o' ? '{' : '['; else if(f == MP) o += (char)((k == 'o' ? 0x80 : 0x90) | count); else head(k == 'o' ? 64 : 128, n);
        kinds.push_back(k); first.push_back(true);
    }
    void close() { char k = kinds.back(); kinds.pop_back(); first.pop_back(); if(text(f)) o += k == 'o' ? '}' : ']'; else if(f == SR) o += (char)0; }
    void num(const Bytes& n, int v) { pre(n); if(text(f)) o += std::to_string(v); else if(f == MP) o += (char)v; else { head(1, n); vi((uint64_t)v); } }
};
struct Level { char kind; bool before, after, sub; };
static std::vector<Level> levels(Case& c, size_t n)
{
    std::vector<Level> r; size_t k = n > 300 ? 1 + c.draw(3) : std::max<size_t>(1, std::min<size_t>(n, 1 + c.draw(140)));
    size_t style = c.draw(3);
    for(size_t i = 0; i < k; i++) r.push_back({ style == 0 ? 'o' : style == 1 ? 'a' : c.flip() ? 'o' : 'a', n < 300 && c.chance(1, 5), n < 300 && c.chance(1, 5), n < 300 && c.chance(1, 6) });
    return r;
}
// the document: root with the chain as "deep" and others around it
static Bytes document(Fmt f, const std::vector<Level>& lv0, size_t n, bool before, bool behind, bool wrap = false)
{
    auto& lv = lv0; Writer w; w.f = f;
    size_t count = 1 + before + behind;
    w.open('o', "", wrap ? 2 : count);
    if(wrap) { w.open('o', "w", count); }
    if(before) w.num("x", 5);
    auto at = [&](size_t i) -> const Level& { return lv[i % lv.size()]; };
    for(size_t i = 0; i < n; i++) { auto& l = at(i); w.open(l.kind, i ? "n" : "deep", (size_t)(1 + l.before + l.after + l.sub)); if(l.before) w.num("b", 7); if(l.sub && i + 1 < n) { w.open(i % 2 ? 'o' : 'a', "s", 0); w.close(); } else if(l.sub) w.num("s", 1); }
    w.num("v", 42);
    for(size_t i = n; i--;) { if(at(i).after) w.num("a", 9); w.close(); }
    if(behind) w.num("y", 6);
    if(wrap) { w.close(); w.num("z", 8); }
    w.close();
    return w.o;
}
static size_t depth_(Case& c)
{
    switch(c.weighted({ 40, 20, 25, 10, 5 })) { case 0: return 124 + c.draw(10); case 1: return 1 + c.draw(140); case 2: return 129 + c.size(5000); case 3: return c.pickl<size_t>({ 256, 257, 384, 512, 1000, 10000, 30000 }); default: return c.pickl<size_t>({ 100000, 300000, 1000000, 3000000 }); }
}
static std::string cut(const std::string& s) { return s.substr(0, 300); }
// walks down the chain of a loaded document
static size_t walk(Srl::Node& n, int* leaf) { size_t k = 0; Srl::Node* p = &n; *leaf = -1; for(;;) { Srl::Node* next = nullptr; p->foreach_node([&](Srl::Node& x) { if(x.num_nodes() + x.num_values() || !next) next = &x; }); if(!next || (next->num_nodes() + next->num_values() == 0)) break; p = next; k++; } p->foreach_value([&](Srl::Value& v) { int i = v.unwrap<int>(); if(i == 42) *leaf = i; }); return k; }
static void usable(Case& c, Srl::Tree& t, Fmt f, const std::string& what)
{
    std::vector<Level> lv{ { 'o', false, true, false } }; Bytes b = document(f, lv, 3, true, true); int x = 0, y = 0, leaf;
    auto m = thrown([&] { with(f, [&](auto& p) { t.load_source((const uint8_t*)b.data(), b.size(), p); CHECK(c, t.root().num_nodes() == 1 && t.root().num_values() == 2 && walk(t.root(), &leaf) == 3 && leaf == 42, what << ": document loaded afterwards is wrong"); t.unpack({ (const uint8_t*)b.data(), b.size() }, p, "y", y, "x", x); }); });
    CHECK(c, m.empty() && x == 5 && y == 6, what << ": Tree can't be used afterwards: " << m << " " << x << " " << y);
}
PBT_TEST(load, 5000, 100000)
{
    size_t n = depth_(c); Fmt f = pick_fmt(c); auto lv = levels(c, n); bool before = c.flip(), behind = c.flip(); Bytes b = document(f, lv, n, before, behind); auto via = pick_via(c); auto chunk = pick_chunk(c); if(chunk < 64 && b.size() > 20000) chunk = 1024;
    bool ok = n <= LIMIT; c.nontrivial(n + 4 > LIMIT); c.note(name(f), " ", n, " levels, ", b.size(), " bytes ", quote(b, 300));
    Srl::Tree t; auto m = thrown([&] { load(t, f, b, via, chunk); });
    CHECK(c, m.empty() == ok, n << " nested scopes " << (m.empty() ? "accepted" : "refused: " + cut(m)));
    if(ok) {
        int leaf; size_t k = walk(t.root(), &leaf); CHECK(c, k == n && leaf == 42, "walked " << k << " levels of " << n << ", content " << leaf);
        // it's complete: written in any format it can be loaded again and is the same
        Doc d = dump(t.root()); Fmt f2 = pick_fmt(c); Bytes b2 = write(t, f2, c.flip()); Srl::Tree t2; auto m2 = thrown([&] { load(t2, f2, b2); }); CHECK(c, m2.empty(), "written as " << name(f2) << " refused: " << m2);
        std::string why; CHECK(c, equal(d, dump(t2.root()), &why), "written as " << name(f2) << " differs: " << why);
        Srl::Tree t3; t3.root().insert("copy", t.root().node(0)); int l3; k = walk(t3.root(), &l3); CHECK(c, k == n && l3 == 42, "copied: " << k << " levels");
        size_t count = 0; t.root().foreach_node([&](Srl::Node&) { count++; }, true); CHECK(c, count >= n, "recursive foreach visits " << count);
    }
    usable(c, t, f, "after " + std::to_string(n) + " levels");
}
// as one of the items to unpack, or between them
struct Small { int x = 0; void srl_resolve(Srl::Context& c) { c("x", x); } };
struct SmallLate { int y = 0; void srl_resolve(Srl::Context& c) { c("y", y); } };
PBT_TEST(unpack, 5000, 100000)
{
    size_t n = depth_(c); Fmt f = pick_fmt(c); auto lv = levels(c, n); auto via = pick_via(c); size_t way = c.draw(7); bool wrap = way >= 4; Bytes b = document(f, lv, n, true, true, wrap); auto chunk = pick_chunk(c); if(chunk < 64 && b.size() > 20000) chunk = 1024;
    bool ok = n + wrap <= LIMIT; c.nontrivial(n + 4 > LIMIT); c.note(name(f), " ", n, " levels, way ", way, ", ", b.size(), " bytes ", quote(b, 300));
    Srl::Tree t; int x = 0, y = 0, z = 0; Srl::Union u; Small s; SmallLate late; bool deep_read = true; std::string bad;
    auto m = thrown([&] { source(via, b, chunk, [&](auto& src) { with(f, [&](auto& p) {
        switch(way) {
            case 0: t.unpack(src, p, "y", y, "x", x); if(x != 5 || y != 6) bad = "values"; break;                                  // buffered on the way to y
            case 1: { t.unpack(src, p, "deep", u, "y", y); int leaf; size_t k = walk(*u.node(), &leaf) + 1; if(k != n || leaf != 42 || y != 6) bad = "walked " + std::to_string(k); break; }
            case 2: deep_read = false; t.unpack(src, p, "x", x); if(x != 5) bad = "x"; break;                                       // not needed at all
            case 3: { Srl::Union miss; std::string mm = thrown([&] { t.unpack(src, p, "missing", miss); }); if(mm.empty()) bad = "missing item found"; if(n > LIMIT && mm.find("missing") != std::string::npos) bad = "deep content was read: " + mm; throw Srl::Exception("as expected"); }
            case 4: deep_read = false; t.unpack(src, p, "w", s, "z", z); if(s.x != 5 || z != 8) bad = "x " + std::to_string(s.x) + " z " + std::to_string(z); break;     // the rest of w is skipped
            case 5: t.unpack(src, p, "w", late, "z", z); if(late.y != 6 || z != 8) bad = "y " + std::to_string(late.y) + " z " + std::to_string(z); break;              // buffered inside of w
            default: t.unpack(src, p, "z", z, "w", s); if(s.x != 5 || z != 8) bad = "x " + std::to_string(s.x) + " z " + std::to_string(z); break;                    // w is buffered
        } }); }); });
    CHECK(c, bad.empty(), "way " << way << ", " << n << " levels: " << bad);
    if(way != 3) { if(ok) CHECK(c, m.empty(), "way " << way << ", " << n << " levels refused: " << cut(m)); else if(deep_read) CHECK(c, !m.empty(), "way " << way << ", " << n << " levels accepted"); }
    usable(c, t, f, "after way " + std::to_string(way));
}
// recursive types
struct RV { int id = 0; std::vector<RV> n; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional); } };
struct RU { int id = 0; std::unique_ptr<RU> n; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional); } ~RU() { while(n) { auto x = std::move(n->n); n = std::move(x); } } };
struct RM { int id = 0; std::map<std::string, RM> n; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional); } };
struct RH { int id = 0; Srl::Lib::HTable<std::string, std::shared_ptr<RH>> n; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional); } };
struct RS { int id = 0; std::shared_ptr<RS> n; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional); } };
struct RP { int id = 0; RP* n = nullptr; RP() { } RP(const RP&) = delete; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional); } ~RP() { while(n) { auto* x = n->n; n->n = nullptr; delete n; n = x; } } };
struct RA { int id = 0; std::vector<RA> n; void srl_resolve(Srl::Context& c) { c(id)(n); } };       // positional: arrays only
struct RL { int id = 0; std::list<RL> n; std::vector<int> e; void srl_resolve(Srl::Context& c) { c("b", id)("n", n, Srl::CtxFlags::Optional)("e", e, Srl::CtxFlags::Optional); } };
// scopes written per level and what's in between
template<class F> static Bytes typed(Fmt f, size_t n, F&& level)    // level(w, i, last): opens; returns number of scopes opened
{
    Writer w; w.f = f; w.open('o', "", n ? 2 : 1); w.num("b", 0); std::vector<int> opened;
    for(size_t i = 0; i < n; i++) opened.push_back(level(w, i, i + 1 == n));
    for(size_t i = n; i--;) for(int k = opened[i]; k--;) w.close();
    w.close(); return w.o;
}
template<class T, class Down> static void rec(Case& c, Fmt f, const Bytes& b, size_t n, size_t scopes, Down&& down)
{
    bool ok = scopes <= LIMIT; c.nontrivial(scopes + 4 > LIMIT); c.note(name(f), " ", n, " levels, ", scopes, " scopes, ", b.size(), " bytes ", quote(b, 300));
    auto via = pick_via(c); auto chunk = pick_chunk(c); if(chunk < 64 && b.size() > 20000) chunk = 1024;
    Srl::Tree t;
    for(int route = 0; route < 2; route++) {
        T o; auto m = thrown([&] { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { if(route == 0) t.restore(o, s, p); else { t.load_source(s, p); t.root().paste(o); } }); }); });
        CHECK(c, m.empty() == ok, (route ? "load + paste: " : "restore: ") << scopes << " nested scopes " << (m.empty() ? "accepted" : "refused: " + cut(m)));
        if(ok) { size_t k = 0; for(const T* p = &o; p; p = down(*p)) { CHECK(c, p->id == (int)(k % 100), "level " << k << " has id " << p->id); k++; } CHECK(c, k == n + 1, "restored " << k << " levels of " << n + 1); }
        usable(c, t, f, "after a recursive type");
    }
}
PBT_TEST(types, 4000, 80000)
{
    Fmt f = pick_fmt(c); size_t kind = c.draw(8); static const size_t per[] = { 2, 1, 2, 2, 2, 1, 2, 2 };
    size_t n = kind == 2 ? depth_(c) / 2 : depth_(c) / per[kind]; if(n < 1) n = 1; if(n > 300000) n = 300000;
    auto obj = [](Writer& w, size_t i, bool last, const Bytes& nm) { w.open('o', nm, last ? 1 : 2); w.num("b", (int)((i + 1) % 100)); };
    switch(kind) {
        case 0: rec<RV>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { w.open('a', "n", 1); obj(w, i, l, ""); return 2; }), n, 2 * n, [](const RV& r) { return r.n.size() ? &r.n[0] : nullptr; }); break;
        case 1: rec<RU>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { obj(w, i, l, "n"); return 1; }), n, n, [](const RU& r) { return r.n.get(); }); break;
        case 2: rec<RM>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { w.open('a', "n", 1); w.open('o', "", 2); w.num("key", 1); obj(w, i, l, "value"); return 3; }), n, 3 * n, [](const RM& r) { return r.n.size() ? &r.n.begin()->second : nullptr; }); break;
        case 3: rec<RH>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { w.open('o', "n", 1); w.open('o', "k", 2); w.num("srl_shared_key", (int)(i % 100)); obj(w, i, l, "srl_shared_value"); return 3; }), n, 3 * n, [](const RH& r) { const RH* x = nullptr; r.n.foreach([&](const std::string&, const std::shared_ptr<RH>& y) { x = y.get(); }); return x; }); break;
        case 4: rec<RS>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { w.open('o', "n", 2); w.num("srl_shared_key", (int)(i % 100)); obj(w, i, l, "srl_shared_value"); return 2; }), n, 2 * n, [](const RS& r) { return r.n.get(); }); break;
        case 6: { // [0,[[1,[[2,[]]]]]]
            Writer w; w.f = f; for(size_t i = 0; i <= n; i++) { w.open('a', "", 2); w.num("", (int)(i % 100)); w.open('a', "", i < n ? 1 : 0); } for(size_t i = 0; i <= n; i++) { w.close(); w.close(); }
            rec<RA>(c, f, w.o, n, 2 * n + 1, [](const RA& r) { return r.n.size() ? &r.n[0] : nullptr; }); break;
        }
        case 7: { // several elements each, the last one goes down
            bool many = c.flip();
            rec<RL>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { w.open('a', "n", many ? 2 : 1); if(many) { w.open('o', "", 1); w.num("b", (int)((i + 1) % 100)); w.close(); } obj(w, i, l, ""); return 2; }), n, 2 * n, [](const RL& r) { return r.n.size() ? &r.n.back() : nullptr; }); break;
        }
        default: rec<RP>(c, f, typed(f, n, [&](Writer& w, size_t i, bool l) { obj(w, i, l, "n"); return 1; }), n, n, [](const RP& r) { return r.n; }); break;
    }
}
// only opened, never closed; only brackets
PBT_TEST(unclosed, 1500, 30000)
{
    size_t n = depth_(c); Fmt f = pick_fmt(c); auto lv = levels(c, n); Bytes b = document(f, lv, n, c.flip(), c.flip()); b.resize(c.draw(b.size())); c.nontrivial(n + 4 > LIMIT);
    auto via = pick_via(c); Srl::Tree t; c.note(name(f), " ", n, " levels, ", b.size(), " bytes");
    CHECK(c, !thrown([&] { load(t, f, b, via); }).empty(), "cut document accepted");
    int x = 0; Srl::Union u; thrown([&] { with(f, [&](auto& p) { t.unpack({ (const uint8_t*)b.data(), b.size() }, p, "y", x, "deep", u); }); });
    Small s; thrown([&] { with(f, [&](auto& p) { t.restore(s, (const uint8_t*)b.data(), b.size(), p); }); });
    std::vector<std::vector<int>> v; thrown([&] { with(f, [&](auto& p) { t.restore(v, (const uint8_t*)b.data(), b.size(), p); }); });
    usable(c, t, f, "after an unclosed document");
}
