// C07: the Srl wire format is stable and self-consistent.
#include "bridge.hpp"
#include <set>
using namespace doc; using namespace br;
PBT_MAIN("C07", "random documents written by the library compared byte for byte with an independent encoder of the established layout, and documents of that encoder loaded by the library, "
         "with many names (index beyond one and two length bytes), repeats, and every value type; non-trivial: a repeated name or a multi-byte length/number")

static bool inter(const Doc& d, std::set<Bytes>& seen)
{
    bool r = d.s.size() > 127 || (d.k == Int && (d.i > 127 || d.i < 0));
    for(auto& m : d.m) { if(d.k == Obj && !seen.insert(m.first).second) r = true; r |= inter(m.second, seen); }
    return r;
}
static bool inter(const Doc& d) { std::set<Bytes> s; return inter(d, s); }

static Doc canon(const Doc& d)      // what the library keeps: a double which fits a float is a float
{
    Doc r = d;
    if(d.k == Flt && d.ct == F64 && (double)(float)d.f == d.f) r.ct = F32;
    for(auto& m : r.m) m.second = canon(m.second);
    return r;
}
static void bytes_equal(Case& c, const Bytes& got, const Bytes& want, const char* how, const Doc& d)
{
    size_t i = 0; while(i < got.size() && i < want.size() && got[i] == want[i]) i++;
    CHECK(c, got == want, how << ": layout differs at byte " << i << " of " << want.size() << "\nlibrary " << hex(got.substr(i > 20 ? i - 20 : 0, 120), 120)
          << "\nlayout  " << hex(want.substr(i > 20 ? i - 20 : 0, 120), 120) << "\nfor " << show(d));
}

PBT_TEST(layout_written, 4000, 80000)
{
    Gen g(c); g.nonfinite = true;
    auto d = g.any();
    c.nontrivial(inter(d));
    c.note("document ", show(d, 500));
    Srl::Tree t; make(t, d, &c);
    auto b = write(t, SR, c.flip());
    bytes_equal(c, b, srl_write(norm(canon(d))), "to_source", d);
    if(d.k == Obj) bytes_equal(c, store_doc(SR, d, &c, c.flip()), srl_write(canon(d)), "store", d);
    auto w = Doc::obj(); w.m.emplace_back("root", canon(d));
    bytes_equal(c, pack_doc(SR, d, c.flip()), srl_write(w), "pack", d);
    std::vector<Bytes> names; bool once = true; srl_parse(b, &names, &once);
    CHECK(c, once, "a name is spelled out twice");
}
PBT_TEST(layout_read, 4000, 80000)
{
    Gen g(c); g.nonfinite = true;
    auto d = g.any();                                       // values and scopes interleaved in any order
    auto b = srl_write(d);
    c.nontrivial(inter(d));
    c.note("document ", show(d, 500));
    Srl::Tree t; auto m = thrown([&] { load(t, SR, b, pick_via(c), pick_chunk(c)); });
    CHECK(c, m.empty(), "document in the established layout is refused: " << m << "\n" << hex(b, 400) << "\n" << show(d));
    std::string why; auto got = dump(t.root());
    CHECK(c, equal(norm(got), norm(d), &why), why << "\nexpected " << show(d) << "\ngot " << show(got) << "\n" << hex(b, 400));
    bytes_equal(c, write(t, SR), srl_write(norm(canon(d))), "written again", d);
}
// many names
PBT_TEST(name_index, 400, 6000)
{
    size_t n = c.pickl<size_t>({ 1, 2, 30, 126, 127, 128, 129, 300, 1000, 16382, 16383, 16384, 16385 });
    if(n > 10000 && !c.chance(1, 5)) n = 129 + c.draw(400);
    Doc d = Doc::obj(), sub = Doc::obj();
    for(size_t i = 0; i < n; i++) d.m.emplace_back("n" + std::to_string(i), Doc::integer((int)i, I32));
    size_t k = 1 + c.draw(40);
    for(size_t i = 0; i < k; i++) { size_t x = c.flip() ? c.draw(n) : n - 1 - c.draw(std::min<size_t>(n, 4)); Doc v = c.chance(1, 5) ? Doc::str(Bytes(c.draw(200), 'x')) : Doc::boolean(true); sub.m.emplace_back("n" + std::to_string(x), v); if(c.chance(1, 6)) sub.m.emplace_back("new" + std::to_string(i), Doc::integer(i)); }
    d.m.emplace_back("s", sub);
    c.nontrivial(); c.note(n, " names, ", k, " repeats");
    auto b = write_doc(SR, d);
    bytes_equal(c, b, srl_write(norm(d)), "to_source", Doc());
    auto ds = store_doc(SR, d, nullptr, c.flip()); bytes_equal(c, ds, srl_write(d), "store", Doc());
    std::vector<Bytes> names; bool once; srl_parse(b, &names, &once);
    CHECK(c, once && names.size() >= n, "names spelled out: " << names.size());
    std::string why; CHECK(c, equal(norm(load_doc(SR, ds, pick_via(c), pick_chunk(c))), norm(d), &why), why);
}
