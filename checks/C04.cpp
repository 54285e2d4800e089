// C04: any valid JSON object or array is loaded with its exact meaning.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C04", "random JSON texts with random layout, comments, escape and number notations from an independent writer, loaded from memory and from streams in random chunks and "
         "compared with the meaning an independent strict parser gives; non-trivial: uses whitespace/comments, \\u escapes or non-canonical numbers and has at least 3 items")

static void compare(Case& c, const Doc& got, const Doc& want, const Bytes& b, const char* how)
{
    std::string why;
    CHECK(c, text_equal(got, want, &why), how << ": " << why << "\nexpected " << show(want) << "\ngot      " << show(got) << "\ntext " << quote(b, 900));
}

PBT_TEST(any_layout, 7000, 120000)
{
    Gen g(c); g.binary = false;
    auto d = g.any();
    JsonStyle st; st.ws = c.chance(3, 4); st.escapes = c.chance(3, 4); st.numbers = c.chance(3, 4); st.comments = st.ws && c.flip();
    Doc want; auto b = json_write(c, d, st, &want);
    if(!st.comments) { Doc ind = json_parse(b); std::string why; if(!text_equal(ind, want, &why)) throw std::runtime_error("oracle disagreement: " + why); }
    c.nontrivial(nodes(d) >= 3 && (st.ws || st.escapes || st.numbers));
    c.label(st.comments ? "with comments" : "plain JSON");
    c.note(quote(b, 600));
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    Srl::Tree t; auto m = thrown([&] { load(t, JC, b, via, chunk); });
    CHECK(c, m.empty(), "valid JSON refused: " << m << "\n" << quote(b, 1500));
    CHECK(c, t.root().type() == type(d), "scope type of the root");
    compare(c, dump(t.root()), want, b, "load_source");
}

// numbers: value as loaded, and as read into 64 bit integers and doubles
PBT_TEST(numbers, 15000, 400000)
{
    Gen g(c); g.binary = false;
    Doc d = Doc::arr(); size_t n = 1 + c.draw(6);
    for(size_t i = 0; i < n; i++) d.m.emplace_back("", c.flip() ? Doc::flt(g.dbl()) : Doc::integer(g.integer_for(c.flip() ? I64 : U64), U64));
    JsonStyle st; st.ws = c.flip(); st.escapes = false;
    Doc want; auto b = json_write(c, d, st, &want);
    c.nontrivial(); c.note(quote(b, 400));
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    auto got = load_doc(JC, b, via, chunk);
    compare(c, got, want, b, "numbers");
    std::vector<double> v;
    Srl::Tree t; with(JC, [&](auto& p) { source(via, b, chunk, [&](auto& s) { t.restore(v, s, p); }); });
    CHECK(c, v.size() == n, "restored " << v.size() << " of " << n << " numbers from " << quote(b));
    for(size_t i = 0; i < n; i++) {
        auto& w = want.m[i].second; double e = w.k == Int ? (double)w.i : w.f;
        CHECK(c, v[i] == e, "read as double: expected " << show(Doc::flt(e)) << " got " << show(Doc::flt(v[i])) << " from " << quote(b));
    }
}

// strings: all escapes and code points, in names and values
PBT_TEST(strings, 5000, 120000)
{
    Gen g(c);
    Bytes s; uint64_t blk = c.enumerate(4352);
    if(c.flip()) for(uint32_t i = 0; i < 256; i++) { uint32_t cp = (uint32_t)blk * 256 + i; if(cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) continue; s += utf8(cp); }
    else s = g.text(300);
    Doc d = Doc::obj(); d.m.emplace_back(c.flip() ? g.name() : s, Doc::str(s)); d.m.emplace_back("n", Doc::str(g.text()));
    JsonStyle st; st.ws = c.flip(); st.numbers = false;
    Doc want; auto b = json_write(c, d, st, &want);
    c.nontrivial(b.find('\\') != Bytes::npos); c.note(quote(b, 400));
    compare(c, load_doc(c.flip() ? JC : JS, b, pick_via(c), pick_chunk(c)), want, b, "strings");
}
