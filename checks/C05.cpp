// C05: MessagePack output conforms to the specification.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C05", "random documents (all scalar kinds, sizes at and around every length-encoding boundary) written by to_source, store and pack to vectors and streams, decoded by an "
         "independent strict MessagePack decoder that has to consume every byte; non-trivial: nested scopes, or a length/number outside the one-byte encodings")

static void verify(Case& c, const Bytes& b, const Doc& want, const char* how)
{
    Doc got;
    try { got = msgpack_parse(b); } catch(const Bad& e) { CHECK(c, false, how << ": not valid MessagePack: " << e.what() << "\n" << hex(b, 300) << "\nfor " << show(want)); }
    std::string why;
    CHECK(c, equal(norm(got), norm(want), &why), how << ": decodes differently: " << why << "\nstored " << show(want) << "\nbytes " << hex(b, 300));
}
static bool large(const Doc& d)
{
    if(d.k == Flt || ((d.k == Str || d.k == Bin) && d.s.size() > 31) || (d.k == Int && (d.i > 127 || d.i < -32))) return true;
    for(auto& m : d.m) if(m.second.scope() || m.first.size() > 31 || large(m.second)) return true;
    return d.m.size() > 15;
}
PBT_TEST(documents, 3500, 60000)
{
    Gen g(c); g.nonfinite = true;
    auto d = g.any();
    c.nontrivial(large(d));
    c.note("document ", show(d, 500));
    Srl::Tree t; make(t, d, &c);
    verify(c, write(t, MP, c.flip()), d, "to_source");
    auto w = Doc::obj(); w.m.emplace_back("root", d);
    verify(c, pack_doc(MP, d, c.flip()), w, "pack");
    if(d.k == Obj) verify(c, store_doc(MP, d, &c, c.flip()), d, "store");
}
// every size class of every container and payload, nested into each other
PBT_TEST(boundaries, 1200, 12000)
{
    Gen g(c);
    auto cnt = [&]() -> size_t {
        size_t k = c.weighted({ 40, 30, 25, 5 });
        return k == 0 ? c.draw(5) : k == 1 ? 14 + c.draw(4) : k == 2 ? c.pickl<size_t>({ 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 300 }) : c.pickl<size_t>({ 65534, 65535, 65536, 65537, 70000 });
    };
    bool bigused = false;
    std::function<Doc(int)> mk = [&](int lvl) {
        switch(lvl >= 4 ? c.draw(3) : c.draw(5)) {
            case 0: { auto n = cnt(); return Doc::str(Bytes(n, 's')); }
            case 1: { auto n = cnt(); return Doc::bin(Bytes(n, (char)0xC3)); }
            case 2: { CT t = (CT)c.draw(8); return Doc::integer(g.integer_for(t), t); }
            default: {
                Doc d = c.flip() ? Doc::obj() : Doc::arr(); auto n = cnt(); if(n > 1000) { if(bigused) n = 20; bigused = true; }
                size_t at = n ? c.draw(n) : 0;
                for(size_t i = 0; i < n; i++) d.m.emplace_back(d.k == Obj ? "k" + std::to_string(i % 50) : Bytes(), i == at || (n < 20 && c.chance(1, 3)) ? mk(lvl + 1) : Doc::integer((int)(i % 300), I32));
                return d;
            }
        }
    };
    Doc d = Doc::obj(); size_t n = 1 + c.draw(3); for(size_t i = 0; i < n; i++) d.m.emplace_back(c.flip() ? "f" : Bytes(cnt() % 70000, 'n'), mk(0));
    c.nontrivial(large(d));
    c.note("document ", show(d, 300));
    Srl::Tree t; make(t, d);
    verify(c, write(t, MP, c.flip()), d, "to_source");
    verify(c, store_doc(MP, d, nullptr, c.flip()), d, "store");
}
