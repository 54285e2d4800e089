// C06: any valid MessagePack document is loaded with its exact meaning; unsupported encodings are rejected.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C06", "random MessagePack documents from an independent encoder choosing freely among all encodings of each value (minimal or not), loaded from memory and streams; plus documents "
         "with one value replaced by a reserved/extension encoding or non-string key, which must be refused; non-trivial: at least one non-minimal encoding was available (3+ items)")

PBT_TEST(all_encodings, 7000, 150000)
{
    Gen g(c); g.nonfinite = true;
    auto d = g.any();
    auto b = msgpack_write(&c, d);
    c.nontrivial(nodes(d) >= 3);
    c.note(show(d, 300), "\n", hex(b, 200));
    Srl::Tree t; auto m = thrown([&] { load(t, MP, b, pick_via(c), pick_chunk(c)); });
    CHECK(c, m.empty(), "valid MessagePack refused: " << m << "\n" << hex(b, 500) << "\n" << show(d));
    std::string why; auto got = dump(t.root());
    CHECK(c, equal(norm(got), norm(msgpack_parse(b)), &why), why << "\nexpected " << show(d) << "\ngot      " << show(got) << "\nbytes " << hex(b, 500));
}

// every lead byte with random payload: the independent decoder decides what it means
PBT_TEST(every_lead_byte, 8000, 200000)
{
    uint8_t lead = (uint8_t)c.enumerate(256);
    Bytes v(1, (char)lead);
    auto be = [&](uint64_t x, int n) { for(int k = n - 1; k >= 0; k--) v += (char)(x >> (8 * k)); };
    auto body = [&](size_t n) { for(size_t i = 0; i < n; i++) v += (char)('a' + (i % 26)); };
    Gen g(c);
    size_t n = c.size(40);
    if(lead >= 0xC4 && lead <= 0xC6) { be(n, 1 << (lead - 0xC4)); body(n); }                                   // bin
    else if(lead >= 0xC7 && lead <= 0xC9) { be(n, 1 << (lead - 0xC7)); v += (char)c.draw(256); body(n); }      // ext
    else if(lead == 0xCA || lead == 0xCB) { if(lead == 0xCA) { float f = g.flt(); uint32_t u; memcpy(&u, &f, 4); be(u, 4); } else { double f = g.dbl(); uint64_t u; memcpy(&u, &f, 8); be(u, 8); } }
    else if(lead >= 0xCC && lead <= 0xD3) be(c.flip() ? c.draw64() : c.pickl<uint64_t>({ 0, 127, 128, 255, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, ~0ull }), 1 << ((lead - 0xCC) & 3));
    else if(lead >= 0xD4 && lead <= 0xD8) { v += (char)c.draw(256); body(1u << (lead - 0xD4)); }               // fixext
    else if(lead >= 0xD9 && lead <= 0xDB) { be(n, 1 << (lead - 0xD9)); body(n); }                              // str
    else if(lead >= 0xA0 && lead <= 0xBF) body(lead & 31);
    else if(lead == 0xDC || lead == 0xDD) { be(n, lead == 0xDC ? 2 : 4); for(size_t i = 0; i < n; i++) v += (char)c.draw(128); }
    else if((lead & 0xF0) == 0x90) { for(int i = 0; i < (lead & 15); i++) v += (char)c.draw(128); }
    else if(lead == 0xDE || lead == 0xDF || (lead & 0xF0) == 0x80) {
        if(lead == 0xDE) be(n, 2); else if(lead == 0xDF) be(n, 4); else n = lead & 15;
        for(size_t i = 0; i < n; i++) { v += (char)0xA1; v += (char)('a' + i % 26); v += (char)c.draw(128); }
    }
    bool bad = lead == 0xC1 || (lead >= 0xC7 && lead <= 0xC9) || (lead >= 0xD4 && lead <= 0xD8);
    // in a map, an array, after and before other items
    Bytes b; bool map = c.flip(); size_t before = c.draw(3), after = c.draw(3);
    b += (char)((map ? 0x80 : 0x90) + before + 1 + after);
    auto item = [&](const Bytes& x, int i) { if(map) { b += (char)0xA1; b += (char)('A' + i); } b += x; };
    int k = 0; for(size_t i = 0; i < before; i++) item(Bytes(1, (char)c.draw(100)), k++); item(v, k++); for(size_t i = 0; i < after; i++) item(Bytes(1, (char)c.draw(100)), k++);
    c.nontrivial();
    c.note("lead ", (int)lead, ": ", hex(b, 100));
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    Srl::Tree t; auto m = thrown([&] { load(t, MP, b, via, chunk); });
    if(bad) { c.label("unsupported"); CHECK(c, !m.empty(), "unsupported encoding read as data: " << hex(b, 200) << "\ngot " << show(dump(t.root()))); return; }
    CHECK(c, m.empty(), "valid encoding refused: " << m << " " << hex(b, 200));
    std::string why; CHECK(c, equal(norm(dump(t.root())), norm(msgpack_parse(b)), &why), why << " bytes " << hex(b, 200));
}

// keys: str in every form, anything else refused
PBT_TEST(map_keys, 3000, 60000)
{
    uint8_t lead = (uint8_t)c.enumerate(256);
    Bytes key(1, (char)lead); bool str = true;
    size_t n = c.size(30);
    if((lead & 0xE0) == 0xA0) key += Bytes(lead & 31, 'k');
    else if(lead >= 0xD9 && lead <= 0xDB) { for(int k = (1 << (lead - 0xD9)) - 1; k >= 0; k--) key += (char)(k == 0 ? n : 0); key += Bytes(n, 'k'); }
    else { str = false; for(size_t i = 0; i < n; i++) key += (char)c.draw(256); }
    Bytes b; size_t before = c.draw(2); b += (char)(0x81 + before); if(before) b += "\xA1x\x05";
    b += key; b += (char)0x07;
    if(c.flip()) b = Bytes("\x91") + b;
    if(!str) b += Bytes(40, '\xA1');
    c.nontrivial(); c.note("key ", hex(key, 60));
    Srl::Tree t; auto m = thrown([&] { load(t, MP, b, pick_via(c), pick_chunk(c)); });
    if(str) { CHECK(c, m.empty(), "string key refused " << m << " " << hex(b, 100)); std::string why; CHECK(c, equal(norm(dump(t.root())), norm(msgpack_parse(b)), &why), why << hex(b, 100)); }
    else CHECK(c, !m.empty(), "map with a key that is not a string accepted: " << hex(b, 100) << " as " << show(dump(t.root())));
}

// scalar or empty root / unsupported root refused
PBT_TEST(root_is_scope, 600, 6000)
{
    uint8_t lead = (uint8_t)c.enumerate(256);
    Bytes b(1, (char)lead); size_t n = 20; for(size_t i = 0; i < n; i++) b += (char)c.draw(256);
    bool scope = (lead & 0xF0) == 0x80 || (lead & 0xF0) == 0x90 || (lead >= 0xDC && lead <= 0xDF);
    c.nontrivial(); c.note(hex(b, 60));
    if(scope) { c.label("scope"); thrown([&] { load_doc(MP, b); }); return; }
    CHECK(c, !thrown([&] { load_doc(MP, b, pick_via(c), pick_chunk(c)); }).empty(), "document which is no map or array accepted: " << hex(b, 60));
}
