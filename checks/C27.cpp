// C27: malformed tokens are rejected, never read as something else.
#include "bridge.hpp"
#include "mutate.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C27", "random valid documents with one token at a random place replaced by one the format doesn't define (JSON: words and numbers which are none, missing or doubled colons, incomplete escapes, unpaired "
         "surrogates, brackets and scalars outside of any scope; MessagePack: reserved and extension prefixes, other keys than strings, scalar roots; Srl: tokens without type, undefined name indexes, integers and sizes of more than 64 bits, scalar roots), loaded, "
         "unpacked and restored from memory and streams; non-trivial: the token isn't the first of the document")

namespace {
// a marker is placed into the document where the token goes
const Bytes MARK = "\x7Fmark\x7F";
std::vector<Doc*> scopes(Doc& d) { std::vector<Doc*> r; if(d.scope()) { r.push_back(&d); for(auto& m : d.m) for(auto* x : scopes(m.second)) r.push_back(x); } return r; }
// inserts an item at a random place before the root's last field; true if inside of an object
const Bytes LAST = "the last field";
bool put(Case& c, Doc& d, const Bytes& nm, const Doc& v)
{
    auto s = scopes(d); auto* x = s[c.draw(s.size())]; bool tail = x->m.size() && x->m.back().first == LAST;
    x->m.insert(x->m.begin() + c.draw(x->m.size() + !tail), { x->k == Obj ? nm : Bytes(), v }); return x->k == Obj;
}
bool mark(Case& c, Doc& d) { return put(c, d, "marked", Doc::str(MARK)); }
bool replace(Bytes& b, const Bytes& from, const Bytes& to) { auto p = b.find(from); if(p == Bytes::npos) return false; b.replace(p, from.size(), to); return b.find(from) == Bytes::npos; }
void strip(Doc& d, bool& ok) { if(d.k == Str && d.s.find("mark") != Bytes::npos) ok = false; for(auto& m : d.m) { if(m.first.find("mark") != Bytes::npos) ok = false; strip(m.second, ok); } }
Doc base(Case& c, Gen& g)
{
    bool ok = true; Doc d = c.chance(1, 6) ? (c.flip() ? Doc::obj() : Doc::arr()) : g.tree(); strip(d, ok); if(!ok) throw pbt::Discard{};
    if(d.k == Obj) d.m.emplace_back(LAST, Doc::integer(1));
    return d;
}
void refused(Case& c, Fmt f, const Bytes& b, const std::string& what, bool before_last = false)
{
    c.note(what, "\n", name(f), " ", quote(b, 900)); c.label(what);
    auto via = pick_via(c); auto ch = pick_chunk(c);
    { Srl::Tree t; if(c.flip()) t.root().insert("old", 1); auto e = thrown([&] { load(t, f, b, via, ch); });
      CHECK(c, !e.empty(), what << " accepted by load_source: " << quote(b, 900) << " as " << show(dump(t.root()), 600));
      // the tree is usable
      if(c.chance(1, 8)) { Doc d = Doc::obj(); d.m.emplace_back("x", Doc::integer(1)); load(t, f, encode(f, d)); std::string why; CHECK(c, equal(norm(dump(t.root())), norm(d), &why), "after the failure: " << why); } }
    if(before_last && c.flip()) { // skipped on the way to the field
        int x = 0; auto e = thrown([&] { source(via, b, ch, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree t; t.unpack(s, p, LAST, x); }); }); });
        CHECK(c, !e.empty(), what << " accepted by unpack of a later field: " << quote(b, 900)); c.label("unpack"); }
}
}
PBT_TEST(json, 40000, 2000000)
{
    Gen g(c); g.nonfinite = false; Fmt f = c.flip() ? JC : JS; Doc d = base(c, g); JsonStyle st; st.numbers = false; st.comments = c.chance(1, 4);
    size_t how = c.draw(9); std::string what; Bytes b;
    auto text = [&](const Doc& x) { return c.flip() ? json_plain(x) : json_write(c, x, st); };
    auto digits = [&] { Bytes r(1, (char)('1' + c.draw(9))); for(size_t i = c.draw(5); i--;) r += (char)('0' + c.draw(10)); return r; };
    switch(how) {
        case 0: case 1: { // a word which isn't any
            Bytes w; size_t k = c.draw(4); static const char* const words[] = { "true", "false", "null" }; Bytes base = words[c.draw(3)];
            if(k == 0) { w = base; size_t at = 1 + c.draw(w.size() - 1); switch(c.draw(3)) { case 0: w.erase(at, 1); break; case 1: w.insert(at, 1, (char)('b' + c.draw(20))); break; default: w[at] = w[at] == 'q' ? 'z' : 'q'; } if(w == "true" || w == "false" || w == "null") throw pbt::Discard{}; }
            else if(k == 1) w = base + (c.flip() ? base : digits());
            else if(k == 2) { static const char* const num[] = { "1.2.3", "--1", "1-", "1-2", "-", "1e", "1e+", "1E-", "1e5e5", "1e5.5", "-e5", "12-", "1..2", "-.", "-.e1", "1e--5", "1+1", "0.1.", "1,2"  }; w = num[c.draw(18)]; }
            else { w = digits(); if(c.flip()) w += "." + digits(); w += c.pickl<char>({ 'x', 'q', 'g', '#', ';', 'z', '$', '_', 'a', 'f', 'L' }); if(c.flip()) w += digits(); if(w[0] == '0') throw pbt::Discard{}; }
            mark(c, d); b = text(d); if(!replace(b, "\"" + MARK + "\"", w) && !replace(b, "\"\\u007Fmark\\u007F\"", w)) throw pbt::Discard{}; what = "word which is no literal"; break; }
        case 2: { // a string where a colon has to be
            mark(c, d); Doc o = Doc::obj(); o.m.emplace_back("mark1", Doc::str("mark2")); put(c, d, "o", o);
            b = json_plain(d); if(!replace(b, "\"mark1\":\"mark2\"", c.pickl<Bytes>({ "\"mark1\" \"mark2\"", "\"mark1\"\"mark2\"", "\"mark1\",\"mark2\":1", "\"mark1\" /* : */ \"mark2\"" }))) throw pbt::Discard{}; what = "missing colon"; break; }
        case 3: { Doc o = Doc::obj(); o.m.emplace_back("mark1", c.flip() ? Doc::integer(5) : g.tree(4, 3)); put(c, d, "o", o);
            b = json_plain(d); if(!replace(b, "\"mark1\":", c.pickl<Bytes>({ "\"mark1\"::", "\"mark1\": :", "\"mark1\":\n:" }))) throw pbt::Discard{}; what = "two colons"; break; }
        case 4: case 5: { // escapes
            Bytes e; static const char hexd[] = "0123456789abcdefABCDEF"; auto h = [&](size_t n) { Bytes r; while(n--) r += hexd[c.draw(22)]; return r; };
            size_t k = c.draw(4);
            if(k == 0) { e = "\\u" + h(4); e[2 + c.draw(4)] = c.pickl<char>({ 'g', 'G', ' ', '-', 'x', 'Z', '/', ':', '@', '`' }); what = "\\u with something else than a hex digit"; }
            else if(k == 1) { e = "\\u" + h(c.draw(4)); what = "\\u with too few digits"; }
            else { char hi[8], lo[8]; snprintf(hi, sizeof hi, "\\ud%c%02x", "89ab"[c.draw(4)], (int)c.draw(256)); snprintf(lo, sizeof lo, "\\ud%c%02x", "cdef"[c.draw(4)], (int)c.draw(256)); what = "unpaired surrogate"; if(k == 2) e = lo; else e = Bytes(hi) + c.pickl<Bytes>({ "", "x", "\\u0041", "\\n", hi, "\\ue000", "\\\\udc00" }); }
            bool quoted_end = k == 1 || c.flip(); bool in_name = c.flip(); Doc o = Doc::obj(); o.m.emplace_back(in_name ? "mark1" : "n", in_name ? Doc::integer(1) : Doc::str("mark1")); put(c, d, "o", o);
            b = json_plain(d); if(!replace(b, "\"mark1\"", "\"" + (c.flip() ? g.ascii(4).substr(0, 0) + Bytes("ab") : Bytes()) + e + (quoted_end ? "\"" : " z\""))) throw pbt::Discard{}; break; }
        case 6: { static const char* const lead[] = { "}", "]", " }", "\"a\"", "\"\"", "\"a\":1", "} ", "/**/]", ",}", "\"a\\\"\"" }; b = Bytes(lead[c.draw(10)]) + (c.flip() ? json_plain(d) : Bytes()); what = "closing bracket or string outside of any scope"; break; }
        case 7: { Doc s = Doc::str(g.text(8)); switch(c.draw(4)) { case 0: b = json_plain(Doc::integer(g.integer_for(I64))); break; case 1: b = c.pickl<Bytes>({ "true", "false", "null" }); break; case 2: b = json_plain(s); break; default: b = json_plain(Doc::flt(g.dbl())); } if(c.flip()) b = "  " + b + "\n"; what = "top-level scalar"; break; }
        default: b = c.pickl<Bytes>({ "", " ", "\n", "/* {} */", "// []", "/**/", ",", "  \t\r\n", "//{}\n", ":" }); what = "no content"; break;
    }
    c.nontrivial(how < 6); refused(c, f, b, what, how < 6 && d.k == Obj);
}
namespace {
// encodings in which the place of every item is known
void msgp(const Doc& d, Bytes& o, std::vector<size_t>& items, std::vector<size_t>& keys) { if(!d.scope()) { items.push_back(o.size()); o += msgpack_write(nullptr, d); return; }
    items.push_back(o.size()); Doc e; e.k = d.k; if(d.m.size() < 16) o += (char)((d.k == Obj ? 0x80 : 0x90) + d.m.size()); else { o += (char)(d.k == Obj ? 0xDE : 0xDC); o += (char)(d.m.size() >> 8); o += (char)d.m.size(); }
    for(auto& m : d.m) { if(d.k == Obj) { keys.push_back(o.size()); o += msgpack_write(nullptr, Doc::str(m.first)); } msgp(m.second, o, items, keys); } }
size_t item_size(const Bytes& b, size_t at) { for(size_t n = 1; at + n <= b.size(); n++) { try { msgpack_parse(b.substr(at, n)); return n; } catch(const Bad&) { } } return 1; }
}
PBT_TEST(msgpack, 30000, 1500000)
{
    Gen g(c); g.nonfinite = true; g.big = false; Doc d = base(c, g); if(nodes(d) > 200) throw pbt::Discard{};
    Bytes b; std::vector<size_t> items, keys; msgp(d, b, items, keys); std::string what; size_t how = c.draw(3); bool at_last = false;
    auto bad = [&] { static const uint8_t l[] = { 0xC1, 0xC7, 0xC8, 0xC9, 0xD4, 0xD5, 0xD6, 0xD7, 0xD8 }; uint8_t x = l[c.draw(9)]; Bytes r(1, (char)x); if(x >= 0xC7 && x <= 0xC9) { for(int i = (1 << (x - 0xC7)) - 1; i--;) r += '\0'; r += '\3'; r += '\1'; r += "abc"; } else if(x >= 0xD4) r += Bytes(1 + (1u << (x - 0xD4)), '\1'); return r; };
    if(how == 0) { if(items.size() < 2) throw pbt::Discard{}; size_t at = items[1 + c.draw(items.size() - 1)]; size_t n = item_size(b, at); at_last = d.k == Obj && at == items.back(); b.replace(at, n, bad()); what = "reserved or extension prefix"; c.nontrivial(); }
    else if(how == 1) { if(keys.empty()) throw pbt::Discard{}; size_t at = keys[c.draw(keys.size())]; size_t n = item_size(b, at); at_last = at == keys.back(); Doc k; switch(c.draw(6)) { case 0: k = Doc::integer(g.integer_for(I64)); break; case 1: k = Doc(); break; case 2: k = Doc::bin(b.substr(at + 1, 3)); break; case 3: k = Doc::boolean(c.flip()); break; case 4: k = Doc::flt(g.dbl()); break; default: k = c.flip() ? Doc::arr() : Doc::obj(); }
        b.replace(at, n, msgpack_write(&c, k)); what = "key which is no string"; c.nontrivial(); }
    else { b = msgpack_write(&c, g.scalar()); if(c.flip()) b = bad(); if(c.chance(1, 10)) b.clear(); what = "top-level scalar or nothing"; }
    refused(c, MP, b, what, how < 2 && d.k == Obj && !at_last);
}
namespace {
void lens(Bytes& o, uint64_t n) { while(n > 127) { o += (char)(0x80 | (n & 127)); n >>= 7; } o += (char)n; }
}
PBT_TEST(srl, 30000, 1500000)
{
    Gen g(c); g.nonfinite = true; Doc d = base(c, g); size_t how = c.draw(6); std::string what; Bytes b;
    if(how < 5) {
        // names defined before the marker
        std::vector<Bytes> seen; bool stop = false;
        std::function<void(const Doc&)> walk = [&](const Doc& x) { for(auto& m : x.m) { if(stop) return; if(m.second.k == Str && m.second.s == MARK) { stop = true; return; }
                if(x.k == Obj && !m.first.empty() && std::find(seen.begin(), seen.end(), m.first) == seen.end()) seen.push_back(m.first); walk(m.second); } };
        bool o = mark(c, d); walk(d); b = srl_write(d); Bytes m; lens(m, MARK.size()); m += MARK; auto at = b.find(m); if(at == Bytes::npos || b.find(m, at + 1) != Bytes::npos) throw pbt::Discard{};
        // the marker's token begins with its flag byte and, in an object, the name
        Bytes nm; if(o) { lens(nm, 6); nm += "marked"; } if(at < nm.size() + 1 || b.compare(at - nm.size(), nm.size(), nm) != 0) throw pbt::Discard{};
        size_t start = at - nm.size() - 1, len = at + m.size() - start; uint8_t named = o ? 2 : 0; Bytes t;
        auto huge = [&](uint64_t) { Bytes r; for(int i = 0; i < 9; i++) r += (char)(0x80 | c.draw(128)); if(c.flip()) r += (char)(2 + c.draw(126)); else { r += (char)(0x80 | c.draw(2)); if(c.flip()) r += (char)c.draw(128); else { r += '\x80'; r += '\0'; } } return r; };
        auto head = [&](uint8_t type) { t = Bytes(1, (char)(type | named)) + nm; };
        switch(how) {
            case 0: { uint8_t f = (uint8_t)(2 * (1 + c.draw(3))); t = Bytes(1, (char)f); if(o && (f & 2)) { if(f & 4) { if(seen.empty()) f = 2, t[0] = 2, t += nm; else lens(t, c.draw(seen.size())); } else t += nm; } what = "token without a type"; break; }
            case 1: { if(!o) throw pbt::Discard{}; static const uint8_t types[] = { 8, 16, 32, 64, 128, 1, 9, 17, 33, 65, 129 }; uint8_t ty = types[c.draw(11)]; t = Bytes(1, (char)(ty | 6));
                uint64_t idx = seen.size() + (c.chance(2, 3) ? 0 : c.flip() ? c.draw(5) : c.draw64() >> (4 + c.draw(56))); if(idx < seen.size()) throw pbt::Discard{}; lens(t, idx);
                if(ty & 1) t += Bytes(ty == 17 ? 4 : ty == 33 ? 8 : ty < 17 ? 1 : 0, '\0'); else if(ty == 16 || ty == 32) t += '\0'; else if(ty >= 64) t += '\0'; what = "index of a name which isn't defined"; break; }
            case 2: head(c.flip() ? 1 : 9); t += huge(0); what = "integer of more than 64 bits"; break;
            case 3: { head(9); uint64_t v = ((uint64_t)1 << 63) + 1 + (c.flip() ? c.draw(3) : (c.draw64() >> 1) % ((~(uint64_t)0 >> 1) - 1)); lens(t, v); what = "negative integer of more than 64 bits"; break; }
            default: { if(o && c.flip()) { t = Bytes(1, (char)(32 | 2)) + huge(0); what = "name of more than 2^64 bytes"; } else { head(c.flip() ? 16 : 32); t += huge(0); what = "size of more than 64 bits"; } break; }
        }
        b.replace(start, len, t); c.nontrivial();
    } else {
        what = "top-level scalar or nothing"; Doc w = Doc::arr(); w.m.emplace_back("", g.scalar()); b = srl_write(w).substr(1); if(c.chance(1, 10)) b.clear(); if(c.chance(1, 10)) b = Bytes(1 + c.draw(5), '\0');
    }
    refused(c, SR, b, what, how < 5 && d.k == Obj);
}
