// C03: JSON output is valid RFC 8259 JSON with exactly the stored content.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C03", "random documents and field/string contents (all of Unicode, control characters, every buffer boundary) written as compact and spaced JSON by every "
         "writing interface, re-read by an independent strict RFC 8259 parser; non-trivial: contains a string or name needing escapes or non-ASCII, a fraction, binary data or nested scopes")

static bool interesting(const Doc& d)
{
    auto odd = [](const Bytes& s) { for(unsigned char x : s) if(x < 32 || x >= 127 || x == '"' || x == '\\' || x == '/') return true; return s.size() > 250; };
    if(d.k == Flt || d.k == Bin) return true;
    if(d.k == Str && odd(d.s)) return true;
    for(auto& m : d.m) if(odd(m.first) || interesting(m.second) || m.second.m.size()) return true;
    return false;
}
static void verify(Case& c, const Bytes& b, const Doc& want, const char* how)
{
    Doc got;
    try { got = json_parse(b); } catch(const Bad& e) { CHECK(c, false, how << ": not valid JSON: " << e.what() << "\n" << quote(b, 900) << "\nfor " << show(want)); }
    std::string why;
    CHECK(c, text_equal(got, want, &why), how << ": reads back differently: " << why << "\nstored " << show(want) << "\nJSON   " << quote(b, 900));
}
static void both(Case& c, const Bytes& compact, const Bytes& spaced, const Doc& want, const char* how)
{
    verify(c, compact, want, how); verify(c, spaced, want, how);
    CHECK(c, json_strip(compact) == compact, how << ": compact JSON holds whitespace: " << quote(compact, 600));
    CHECK(c, json_strip(spaced) == compact, how << ": spaced and compact JSON differ in more than whitespace:\n" << quote(compact, 600) << "\n" << quote(spaced, 600));
}

PBT_TEST(documents, 3000, 60000)
{
    Gen g(c);
    auto d = g.any();
    c.nontrivial(interesting(d));
    c.note("document ", show(d, 500));
    Srl::Tree t; make(t, d, &c);
    auto jc = write(t, JC), js = write(t, JS, c.flip());
    both(c, jc, js, d, "to_source");
    // one parser object, its style being switched
    { bool compact = c.flip(); Srl::PJson p(compact); for(int i = 0; i < 3; i++) { auto x = str(t.to_source(p)); CHECK(c, x == (compact ? jc : js), "PJson switched to " << (compact ? "compact" : "spaced") << " wrote " << quote(x, 600)); compact = c.flip(); p.set_compact(compact); } }
    auto w = Doc::obj(); w.m.emplace_back("root", d);
    both(c, pack_doc(JC, d, c.flip()), pack_doc(JS, d), w, "pack");
    if(d.k == Obj) both(c, store_doc(JC, d, &c), store_doc(JS, d, &c, c.flip()), d, "store");
}

// every code point and every byte position of the output buffer: names and values
PBT_TEST(every_character, 4500, 68000)
{
    // walks all code points in blocks of 256 (control characters and escapes in every case)
    uint64_t blk = c.enumerate(4352);
    Doc d = Doc::obj(); size_t pad = c.draw(1100); Bytes block;
    for(uint32_t i = 0; i < 256; i++) { uint32_t cp = (uint32_t)blk * 256 + i; if(cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) continue; block += utf8(cp); }
    Bytes ctl; size_t n = 1 + c.draw(40); for(size_t i = 0; i < n; i++) ctl += c.chance(1, 6) ? Bytes(1, (char)c.range('a', 'z')) : utf8(c.flip() ? (uint32_t)c.draw(0x24) : c.pickl<uint32_t>({ '"', '\\', '/', 0x7F, 0x80, 0x2028, 0x2029, 0xFEFF, 0xFFFF, 0x10FFFF }));
    d.m.emplace_back(Bytes(pad % 40, 'n') + ctl, Doc::str(Bytes(pad, 'p') + block + ctl));
    if(c.flip()) d.m.emplace_back(block, Doc::str(ctl));
    Doc a = Doc::arr(); a.m.emplace_back("", Doc::str(ctl + block)); d.m.emplace_back("a", a);
    c.nontrivial();
    c.note("block U+", blk * 256, " padded by ", pad, ", with ", quote(ctl, 200));
    Srl::Tree t; make(t, d);
    both(c, write(t, JC, c.flip()), write(t, JS), d, "to_source");
    if(c.flip()) both(c, store_doc(JC, d, nullptr, c.flip()), store_doc(JS, d), d, "store");
}

// numbers of every kind in field, array and root position; text always a valid JSON number with at most 17 digits, exact value
PBT_TEST(numbers, 12000, 300000)
{
    Gen g(c); g.big = false;
    Doc d = c.flip() ? Doc::obj() : Doc::arr(); size_t n = 1 + c.draw(20);
    for(size_t i = 0; i < n; i++) {
        Doc v; switch(c.draw(4)) { case 0: { CT t = (CT)c.draw(8); v = Doc::integer(g.integer_for(t), t); break; } case 1: v = Doc::flt(g.flt(), F32); break; default: v = Doc::flt(g.dbl()); }
        d.m.emplace_back(d.k == Obj ? "n" + std::to_string(i) : Bytes(), v);
    }
    c.nontrivial();
    c.note(show(d, 500));
    Srl::Tree t; make(t, d, &c);
    both(c, write(t, JC), write(t, JS), d, "numbers");
}
