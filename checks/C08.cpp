// C08: untrusted input is loaded or rejected; never a crash, undefined behaviour, endless loop or excessive memory.
#include "dyn.hpp"
#include "mutate.hpp"
#include "poly.hpp"
#include <deque>
#include <set>
#include <sanitizer/allocator_interface.h>
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C08", "byte strings (random, valid documents mutated 1-8 times, spliced, with hostile length fields, of another format) handed to every reading interface from memory and streams, under ASan/UBSan with exactly sized "
         "buffers, limits of memory and time; parser, Tree and target are used again afterwards; non-trivial: derived from a valid document or rejected after its first bytes")

// ---- memory in use ----
static size_t cur = 0, peak = 0, largest = 0; static bool counting = false;
static void on_malloc(const volatile void*, size_t n) { if(!counting) return; cur += n; if(cur > peak) peak = cur; if(n > largest) largest = n; }
static void on_free(const volatile void* p) { if(!counting || !p) return; size_t n = __sanitizer_get_allocated_size(p); cur = cur > n ? cur - n : 0; }
static const bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
struct Count { Count() { (void)hooked; cur = peak = largest = 0; counting = true; } ~Count() { counting = false; } };

static Bytes hostile_length(Case& c, Bytes b, Fmt f)
{
    if(f == MP) {
        static const uint8_t pre[] = { 0xC4, 0xC5, 0xC6, 0xD9, 0xDA, 0xDB, 0xDC, 0xDD, 0xDE, 0xDF, 0xC7, 0xC8, 0xC9 };
        Bytes x(1, (char)pre[c.draw(sizeof pre)]); x += (char)c.pickl<int>({ 0xFF, 0x7F, 0x80, 0x10, 0 }); for(int i = 0; i < 3; i++) x += (char)c.pickl<int>({ 0xFF, 0xF0, 0 });
        size_t at = c.draw(b.size() + 1); if(c.flip()) b.insert(at, x); else b.replace(at, std::min<size_t>(x.size(), b.size() - at), x);
    } else if(f == SR) {
        Bytes x; size_t n = 1 + c.draw(10); for(size_t i = 0; i < n; i++) x += (char)(c.pickl<int>({ 0xFF, 0x80, 0x90 })); x += (char)c.pickl<int>({ 0x7F, 0x0F, 0x01, 0 });
        size_t at = c.draw(b.size() + 1); if(c.flip()) b.insert(at, x); else b.replace(at, std::min<size_t>(x.size(), b.size() - at), x);
    } else { size_t n = c.pickl<size_t>({ 10, 100, 1000, 5000 }); Bytes x = c.pickl<const char*>({ "9", " ", "\\", "[", "\"", "\\u0041", "1,", "{\"\":", "/*", "-", "0" }), y; for(size_t i = 0; i < n; i++) y += x; b.insert(c.draw(b.size() + 1), y); }
    return b;
}
static Bytes hostile(Case& c, Fmt f, const Bytes& good, const Bytes& other)
{
    Bytes b;
    switch(c.weighted({ 40, 12, 12, 16, 6, 6, 8 })) {
        case 0: b = mutate(c, good, f, 4); c.nontrivial(); break;
        case 1: b = good.substr(0, c.draw(good.size() + 1)) + other.substr(c.draw(other.size() + 1)); c.nontrivial(); break;
        case 2: b = garbage(c, f); c.nontrivial(b.size() > 4); break;
        case 3: b = hostile_length(c, good, f); if(c.flip()) b = hostile_length(c, b, f); c.nontrivial(); break;
        case 4: b = mutate(c, encode(pick_fmt(c), Doc::obj()) + good, f, 2); break;
        case 5: b = good; for(size_t i = c.draw(4); i--;) b += c.flip() ? good : other; c.nontrivial(); break;
        default: b = mutate(c, mutate(c, good, f, 4), f, 4); c.nontrivial(); break;
    }
    return b;
}
// runs fn, which may throw std::exception; checks memory
template<class F> static std::string guarded(Case& c, const Bytes& b, size_t base, size_t factor, const char* what, F&& fn)
{
    std::string m; { Count k; m = thrown(fn); }
    CHECK(c, peak <= base + factor * b.size(), what << ": " << peak << " bytes of memory (largest block " << largest << ") for an input of " << b.size() << " bytes" << (m.empty() ? "" : ", rejected: " + m) << "\n" << quote(b, 300));
    return m;
}
PBT_TEST(documents, 18000, 900000)
{
    Gen g(c); g.big = c.chance(1, 20); Fmt f = pick_fmt(c);
    auto d = g.any(); Bytes good = wild(c, f, d), b = hostile(c, f, good, good);
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    c.note(name(f), " ", quote(b, 700));
    with(f, [&](auto& p) {
        Srl::Tree t; Doc got;
        auto m = guarded(c, b, 1 << 18, 400, "load_source", [&] { source(via, b, chunk, [&](auto& s) { t.load_source(s, p); }); });
        c.label(m.empty() ? "accepted" : "rejected");
        if(m.empty()) { got = dump(t.root()); Fmt f2 = pick_fmt(c); thrown([&] { write(t, f2); }); t.root().foreach_node([](Srl::Node& n) { n.num_values(); }, true); t.root().find_nodes("x", true); }
        // the same from elsewhere
        Via via2 = pick_via(c); auto chunk2 = pick_chunk(c); Doc got2; auto m2 = thrown([&] { got2 = load_doc(f, b, via2, chunk2); });
        CHECK(c, m.empty() == m2.empty(), "accepted or not depends on the kind of source: " << m << " / " << m2 << " via " << via << " chunk " << chunk << ", via " << via2 << " chunk " << chunk2);
        std::string why; if(m.empty()) CHECK(c, equal(got, got2, &why), "read differently: " << why);
        // both are still usable
        if(c.flip()) { auto x = thrown([&] { t.root().insert("more", 1, "evenmore", "text"); dump(t.root()); }); (void)x; }
        auto fresh = load_doc(f, good); auto x = thrown([&] { source(via, good, chunk, [&](auto& s) { t.load_source(s, p); }); });
        CHECK(c, x.empty(), "Tree and parser can't load a good document afterwards: " << x);
        CHECK(c, equal(fresh, dump(t.root()), &why), "a good document is read differently afterwards: " << why);
    });
}
// every kind of target
struct Std {
    std::vector<std::vector<int>> v; std::map<std::string, std::map<int, std::string>> m; std::set<std::string> s; std::list<std::u16string> l; std::deque<double> d; int a[3] = { }; char txt[5] = ""; std::tuple<int, std::string, std::vector<double>> t;
    std::pair<int, std::string> p; std::unique_ptr<std::vector<std::string>> u; std::shared_ptr<int> sp; Srl::Lib::HTable<std::string, std::vector<int>> h; std::vector<uint8_t> bin; int8_t i8 = 0; uint64_t u64 = 0; float f = 0; bool b = false; char32_t c32 = 0; std::u32string w;
    std::vector<double> dbin; int8_t i8b = 0;
    void srl_resolve(Srl::Context& c)
    {
        Srl::VecWrap<uint8_t> bw(bin); Srl::VecWrap<double> dw(dbin);
        c("v", v)("m", m)("s", s)("l", l)("d", d)("a", a)("txt", txt)("t", t)("p", p)("u", u, Srl::CtxFlags::Optional)("sp", sp)("h", h)("bin", bw)("dbin", dw)("i8", i8)("u64", u64)("f", f)("b", b)("c32", c32)("w", w);
    }
    void gen(Gen& g)
    {
        auto& c = g.c; auto n = [&] { return c.draw(4); };
        for(size_t i = n(); i--;) { v.emplace_back(); v.back().assign(n(), 7); s.insert(g.text(5)); l.push_back(to16(from_utf8(g.text(5)))); d.push_back(g.dbl()); auto& x = m[g.text(4)]; for(size_t k = n(); k--;) x[(int)c.draw(100)] = g.text(4); }
        t = std::make_tuple(4, g.text(5), std::vector<double>(n(), 1.5)); p = { 4, g.text(4) }; u.reset(new std::vector<std::string>(n(), "x")); sp = std::make_shared<int>(4); h.clear(); for(size_t i = n(); i--;) h.insert(g.ascii(3), std::vector<int>(n(), 3));
        auto bl = g.blob(30); bin.assign(bl.begin(), bl.end()); dbin.assign(n(), 2.5); i8 = -3; u64 = ~0ull; f = 1.5f; b = true; c32 = U'\x10FFFF'; w = U"wide"; txt[0] = 'a'; txt[1] = 0; a[0] = 5;
    }
};
template<class T> struct Again { static std::string differs(const T&, T&) { return ""; } };
template<> struct Again<Dyn> { static std::string differs(const Dyn& a, Dyn& b) { dyn::Cmp m; a.equal(b, m, "obj"); return m.why; } };
template<> struct Again<poly::Holder> { static std::string differs(const poly::Holder& a, poly::Holder& b) { poly::Iso i; a.equal(b, i); return i.why; } };
template<class T> static void objects(Case& c, T& a, Gen& g, size_t base, size_t factor)
{
    Fmt f = pick_fmt(c); Bytes good, pgood; int num = 5; std::string txt = "some text";
    with(f, [&](auto& p) { good = str(Srl::Tree().store(a, p)); std::vector<uint8_t> v; Srl::Tree().pack(v, p, "num", num, "obj", a, "txt", txt, "list", std::vector<int>{ 1, 2, 3 }, "more", a); pgood = str(v); });
    if(c.flip() && good.size() < 5000) { try { auto d = decode(f, good); good = wild(c, f, d); } catch(const doc::Bad&) { } }
    auto other = wild(c, f, g.any());
    Bytes b = hostile(c, f, good, c.flip() ? other : good), pb = hostile(c, f, pgood, c.flip() ? other : good);
    auto via = pick_via(c); auto chunk = pick_chunk(c); size_t way = c.draw(7); auto& in = way == 1 || way == 2 || way == 5 ? pb : b; const Bytes& ok = way == 1 || way == 2 || way == 5 ? pgood : good;
    c.note(name(f), " way ", way, " via ", via, " chunk ", chunk, " ", quote(in, 900));
    auto t = std::make_unique<T>(); if(c.flip()) t->gen(g);
    auto target = [&](Srl::Tree& tree, auto& p, const Bytes& x, T& o) { source(via, x, chunk, [&](auto& s) {
        switch(way) {
            case 0: tree.restore(o, s, p); break;
            case 1: { int n = 0; std::string y; std::vector<int> l; tree.unpack(s, p, "txt", y, "obj", o, "num", n, "list", l); break; }
            case 2: { Srl::Union u; std::vector<int> l; tree.unpack(s, p, "obj", u, "list", l); u.copy_to(o); break; }
            case 3: tree.load_source(s, p); tree.root().paste(o); break;
            case 4: { tree.load_source(s, p); Srl::Tree keep(Srl::Type::Object); keep.root().insert("copy", tree.root()); keep.root().node("copy").paste(o); break; }
            case 5: { tree.load_source(s, p); if(auto u = tree.try_get("obj")) u->copy_to(o); else tree.get("more").copy_to(o); break; }
            default: { tree.unpack(s, p); tree.load_source(s, p); tree.root().paste(o); break; }
        } }); };
    with(f, [&](auto& p) {
        Srl::Tree tree;
        auto m = guarded(c, in, base, factor, "restore", [&] { if(way == 6) { Srl::Tree x; source(via, in, chunk, [&](auto& s) { x.restore(*t, s, p); }); } else target(tree, p, in, *t); });
        c.label(m.empty() ? "accepted" : "rejected");
        T clean; T& reused = c.flip() ? clean : *t;
        auto x = thrown([&] { if(way == 6) tree.restore(reused, (const uint8_t*)good.data(), good.size(), p); else target(tree, p, ok, reused); });
        CHECK(c, x.empty(), "good document refused afterwards: " << x << "\nafter " << (m.empty() ? "success" : m));
        if(&reused == &clean) { auto w = Again<T>::differs(a, reused); CHECK(c, w.empty(), "good document read differently afterwards: " << w << "\nafter " << (m.empty() ? "success" : m)); }
    });
}
PBT_TEST(structs, 6000, 300000) { Gen g(c); g.negzero = false; dyn::Opt o; dyn::draw_schema(g, o); Dyn a; a.gen(g); objects(c, a, g, 1 << 20, 4000); }
PBT_TEST(owners, 2500, 150000) { poly::reset(c); Gen g(c); g.negzero = false; auto a = std::make_unique<poly::Holder>(); a->gen(g); objects(c, *a, g, 1 << 20, 4000); }
PBT_TEST(containers, 5000, 300000) { Gen g(c); Std a; a.gen(g); objects(c, a, g, 1 << 18, 600); }
// bare containers as the whole document
PBT_TEST(bare, 8000, 300000)
{
    Gen g(c); Fmt f = pick_fmt(c); auto d = g.any(); Bytes good = wild(c, f, d), b = hostile(c, f, good, good); auto via = pick_via(c); auto chunk = pick_chunk(c);
    c.note(name(f), " ", quote(b, 700));
    size_t k = c.draw(14);
    with(f, [&](auto& p) {
        Srl::Tree t;
        auto one = [&](auto x) { auto m = guarded(c, b, 1 << 18, 2000, "restore", [&] { source(via, b, chunk, [&](auto& s) { t.restore(x, s, p); }); }); c.label(m.empty() ? "accepted" : "rejected"); };
        switch(k) {
            case 0: one(std::vector<int>()); break; case 1: one(std::vector<std::string>()); break; case 2: one(std::map<std::string, std::string>()); break; case 3: one(std::vector<std::vector<double>>()); break;
            case 4: one(std::map<int, std::vector<std::u16string>>()); break; case 5: one(std::set<int>()); break; case 6: one(std::tuple<int, double, std::string>()); break; case 7: one(std::pair<std::string, std::vector<int>>()); break;
            case 8: one(std::list<std::map<std::string, int>>()); break; case 9: one(std::deque<std::string>()); break; case 10: one(std::multimap<int, int>()); break; case 11: one(std::vector<std::pair<int, int>*>()); break;
            case 12: { Srl::Union u; Doc x; guarded(c, b, 1 << 18, 2000, "unpack", [&] { source(via, b, chunk, [&](auto& s) { t.unpack(s, p, "", u); if(u.is_node()) dump(*u.node()); else dump(*u.value()); }); }); break; }
            default: { int n; std::string s1; Srl::Bytes by; guarded(c, b, 1 << 18, 2000, "unpack", [&] { source(via, b, chunk, [&](auto& s) { t.unpack(s, p, "a", n, "b", s1, "c", by); }); }); }
        }
        auto fresh = load_doc(f, good); std::string why; auto x = thrown([&] { t.load_source((const uint8_t*)good.data(), good.size(), p); });
        CHECK(c, x.empty() && equal(fresh, dump(t.root()), &why), "good document afterwards: " << x << why);
    });
}
// text given to the free functions
PBT_TEST(tools, 10000, 300000)
{
    Gen g(c); Bytes b = c.flip() ? g.blob(80) : g.text(40); for(size_t i = c.draw(3); i--;) b = mutate(c, b, JC, 2); c.nontrivial(b.size() > 0);
    c.note(quote(b));
    std::unique_ptr<char[]> buf(new char[b.size()]); memcpy(buf.get(), b.data(), b.size()); auto* p = buf.get(); size_t n = b.size();
    for(auto e : { Srl::Encoding::UTF8, Srl::Encoding::UTF16, Srl::Encoding::UTF32 }) {
        Srl::String s((const uint8_t*)p, n, e);
        for(auto to : { Srl::Encoding::UTF8, Srl::Encoding::UTF16, Srl::Encoding::UTF32 }) { std::vector<uint8_t> out; for(bool th : { false, true }) guarded(c, b, 1 << 17, 60, "conv_charset", [&] { Srl::Tools::conv_charset(to, s, out, th); }); }
        guarded(c, b, 1 << 17, 60, "str_to_type", [&] { Srl::Tools::str_to_type(s); });
        guarded(c, b, 1 << 17, 60, "unwrap", [&] { s.unwrap<char>(false); s.unwrap<char16_t>(false); s.unwrap<char32_t>(false); });
    }
    guarded(c, b, 1 << 17, 60, "base64", [&] { auto v = Srl::Tools::base64_to_bytes(p, n); (void)v; });
    guarded(c, b, 1 << 17, 60, "hex", [&] { auto v = Srl::Tools::hex_to_bytes((const uint8_t*)p, n); (void)v; });
}
