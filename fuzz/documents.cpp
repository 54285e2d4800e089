// Coverage-guided target: a hostile document is handed to every kind of reader; oracles are the sanitizers, bounds on memory,
// and relations between the readers (memory = stream, direct restore = load + paste, writing what was accepted is stable).
// data[0]: format and chunk, data[1]: target type, rest: document.   Which relation failed is named in the report ("ORACLE Cxx").
#include "bridge.hpp"
#include <deque>
#include <map>
#include <set>
#include <tuple>
#include <cstdio>
#include <cstdlib>
using namespace doc; using namespace br;
const char* pbt::property_id = "fuzz"; const char* pbt::nontrivial_rule = "";

namespace {
// only the oracles of the property being checked decide (all if none is given); sanitizers always do
void oracle(const char* prop, const std::string& what) { static const char* const only = getenv("FUZZ_PROPERTY"); if(only && *only && strcmp(only, prop)) return; fprintf(stderr, "ORACLE %s %s\n", prop, what.c_str()); abort(); }
template<class F> bool feq(F a, F b) { return a == b || (a != a && b != b); }
template<class T> bool eq(const T& a, const T& b) { return a == b; }
bool eq(const std::vector<double>& a, const std::vector<double>& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), feq<double>); }
bool eq(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto& x, auto& y) { return eq(x, y); }); }
struct Sub { int x = 0; std::string s; std::vector<double> d; void srl_resolve(Srl::Context& c) { c("x", x)("s", s)("d", d); } bool operator==(const Sub& o) const { return x == o.x && s == o.s && eq(d, o.d); } };
struct All {
    std::vector<std::vector<int>> v; std::map<std::string, int> m; std::string s; std::u16string w; int a[2] = { }; std::tuple<int, std::string> t; std::unique_ptr<Sub> u; std::shared_ptr<Sub> p, q; std::vector<uint8_t> b; int8_t i = 0; uint64_t n = 0; double f = 0; bool o = false; char txt[4] = ""; std::list<Sub> l; std::pair<std::string, float> pr;
    void srl_resolve(Srl::Context& c)
    {
        namespace F = Srl::CtxFlags; Srl::VecWrap<uint8_t> bw(b);
        c("v", v, F::Optional)("m", m, F::Optional)("s", s, F::Optional)("w", w, F::Optional)("a", a, F::Optional)("t", t, F::Optional)("u", u, F::Optional)("p", p, F::Optional)("q", q, F::Optional)("b", bw, F::Optional)("i", i, F::Optional)("n", n, F::Optional)
         ("f", f, F::Optional)("o", o, F::Optional)("txt", txt, F::Optional)("l", l, F::Optional)("pr", pr, F::Optional);
    }
    bool operator==(const All& x) const
    {
        auto same = [](auto& a, auto& b) { return !a == !b && (!a || *a == *b); };
        return v == x.v && m == x.m && s == x.s && w == x.w && a[0] == x.a[0] && a[1] == x.a[1] && t == x.t && same(u, x.u) && same(p, x.p) && same(q, x.q) && b == x.b && i == x.i && n == x.n && feq(f, x.f) && o == x.o && strcmp(txt, x.txt) == 0 && l == x.l && pr.first == x.pr.first && feq(pr.second, x.pr.second);
    }
};
struct Pos { int a = 0; std::string s; std::vector<Pos> n; void srl_resolve(Srl::Context& c) { c(a)(s)(n); } bool operator==(const Pos& o) const { return a == o.a && s == o.s && n == o.n; } };

template<class T> void restore(Fmt f, const Bytes& b, Via via, size_t chunk)
{
    with(f, [&](auto& p) {
        Srl::Tree t, t2, t3; T x{}, y{}, z{};
        auto e = thrown([&] { source(Pointer, b, chunk, [&](auto& s) { t.restore(x, s, p); }); });
        auto e2 = thrown([&] { source(via, b, chunk, [&](auto& s) { t2.restore(y, s, p); }); });
        if(e.empty() != e2.empty()) oracle("C10", "restore from memory: '" + e + "', from the stream: '" + e2 + "'");
        if(e.empty() && !eq(x, y)) oracle("C10", "restored objects differ");
        auto e3 = thrown([&] { t3.load_source((const uint8_t*)b.data(), b.size(), p); });
        if(e3.empty()) { // the document is well-formed up to its end
            auto e4 = thrown([&] { t3.root().paste(z); });
            if(e.empty() != e4.empty()) { if(!(e.empty() && e4.find("duplication") != std::string::npos)) oracle("C26", "restore: '" + e + "', load and paste: '" + e4 + "'"); }
            else if(e.empty() && !eq(x, z)) oracle("C26", "restored and pasted objects differ");
        }
    });
}
bool unique(const Doc& d)
{
    if(!d.scope()) return true;
    std::set<Bytes> s; for(auto& m : d.m) { if(d.k == Obj && !s.insert(m.first).second) return false; if(!unique(m.second)) return false; }
    return true;
}
bool clean(const Doc& d)                     // only content which all formats can express
{
    if(d.k == Flt) return std::isfinite(d.f);
    bool ok = true;
    if(d.k == Str) { from_utf8(d.s, &ok); return ok; }
    for(auto& m : d.m) { from_utf8(m.first, &ok); if(!ok || !clean(m.second)) return false; }
    return true;
}
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if(size < 3 || size > 20000) return 0;
    Fmt f = (Fmt)(data[0] & 3); static const size_t chunks[] = { 1, 2, 3, 7, 64, 1023, 1024, 4096 }; size_t chunk = chunks[(data[0] >> 2) & 7]; Via via = data[0] & 32 ? Chunked : SStream;
    Bytes b((const char*)data + 2, size - 2);
    Doc d, s; std::string why;
    auto e = thrown([&] { d = load_doc(f, b, Pointer); });
    auto e2 = thrown([&] { s = load_doc(f, b, via, chunk); });
    if(e.empty() != e2.empty()) oracle("C10", "from memory: '" + e + "', from the stream: '" + e2 + "'");
    bool uniq = true;
    if(e.empty()) {
        if(!equal(d, s, &why)) oracle("C10", "documents differ: " + why);
        uniq = unique(d);
        Srl::Tree t; load(t, f, b);
        for(Fmt g : { MP, SR }) {
            if(!clean(d)) break;
            Bytes o = write(t, g); Doc r; auto m = thrown([&] { r = load_doc(g, o); });
            if(!m.empty() || !equal(d, r, &why)) oracle("C02", std::string("written as ") + name(g) + ": " + m + why);
        }
        if(clean(d)) { Bytes o = write(t, f); Srl::Tree u; load(u, f, o); Bytes o2 = write(u, f); Srl::Tree w; load(w, f, o2); if(o2 != write(w, f)) oracle("C02", "not stable"); if(text(f)) { try { json_parse(o); } catch(const Bad& x) { oracle("C03", x.what()); } } }
    }
    if(uniq) switch(data[1] % 12) {
        case 0: restore<std::vector<int>>(f, b, via, chunk); break; case 1: restore<std::map<std::string, std::string>>(f, b, via, chunk); break; case 2: restore<std::vector<std::vector<double>>>(f, b, via, chunk); break;
        case 3: restore<std::vector<std::string>>(f, b, via, chunk); break; case 4: restore<Pos>(f, b, via, chunk); break; case 5: restore<std::set<std::u16string>>(f, b, via, chunk); break; case 6: restore<std::tuple<int, std::string, bool>>(f, b, via, chunk); break;
        case 7: restore<Sub>(f, b, via, chunk); break; case 8: restore<std::deque<Sub>>(f, b, via, chunk); break; default: restore<All>(f, b, via, chunk); break;
    }
    // unpacking in another order
    Srl::Tree t; Srl::Union u; All a; int n = 0;
    thrown([&] { with(f, [&](auto& p) { source(via, b, chunk, [&](auto& src) { t.unpack(src, p, "u", u, "x", n, "n", a); }); }); });
    thrown([&] { dump(t.root()); });
    thrown([&] { if(u.is_node()) dump(*u.node()); else if(u.is_value()) dump(*u.value()); });
    return 0;
}
// --write-seeds DIR: valid documents in every format to start from
extern "C" int LLVMFuzzerInitialize(int* argc, char*** argv)
{
    if(*argc != 3 || strcmp((*argv)[1], "--write-seeds")) return 0;
    All a; a.v = { { 1, 2 }, {}, { -70000 } }; a.m = { { "k", 1 }, { "l", -2 } }; a.s = "te\"xt\n\xC3\xA9"; a.w = u"w\xD83D\xDE00"; a.t = { 3, "t" }; a.u.reset(new Sub); a.u->s = "long enough to be stored elsewhere"; a.p = std::make_shared<Sub>(); a.p->d = { 0.5, 1e300, -3 }; a.q = a.p; a.b = { 1, 2, 255 }; a.i = -128; a.n = ~0ull; a.f = 0.1; a.o = true; strcpy(a.txt, "ab"); a.l.resize(2); a.pr = { "pr", 1.5f };
    Pos p; p.n.resize(2); p.n[0].s = "pos"; p.n[0].n.resize(1);
    unsigned n = 0;
    auto put = [&](unsigned fmt, unsigned target, const std::vector<uint8_t>& v) {
        for(unsigned x : { 0u, 7u, 20u, 63u }) { FILE* o = fopen(((*argv)[2] + std::string("/seed") + std::to_string(n++)).c_str(), "wb"); if(!o) exit(2); uint8_t h[] = { (uint8_t)(fmt | (x & ~3u)), (uint8_t)target }; fwrite(h, 1, 2, o); fwrite(v.data(), 1, v.size(), o); fclose(o); }
    };
    for(unsigned f = 0; f < 4; f++) with((Fmt)f, [&](auto& ps) {
        auto st = [&](unsigned t, const auto& o) { put(f, t, Srl::Tree().store(o, ps)); };
        st(0, std::vector<int>{ 1, -2, 300, 70000 }); st(1, a.m); st(1, std::map<std::string, std::string>{ { "a", "b" }, { "c", "" } }); st(2, std::vector<std::vector<double>>{ { 1.5, 2 }, {} }); st(3, std::vector<std::string>{ "a", "\t\\" }); st(4, p); st(5, std::set<std::u16string>{ u"x", u"\xD83D\xDE00" });
        st(7, *a.u); st(8, a.l); st(9, a); std::vector<uint8_t> v; Srl::Tree().pack(v, ps, "n", a, "x", 5, "u", *a.u); put(f, 11, v);
    });
    const char* js[] = { "// c\n{\"a\" : [ 1.5e3, -0.25E-2, true, null, \"\\u00e9\\ud83d\\ude00\\/\\b\" ], /* d */ \"x\":{}}", "[[[[]]],{\"a\":{\"b\":[{}]}}]" };
    for(auto* j : js) put(0, 9, std::vector<uint8_t>(j, j + strlen(j)));
    exit(0);
}
