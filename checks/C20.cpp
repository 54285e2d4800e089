// C20: scalars and their text forms correspond exactly.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C20", "random scalars converted to text and read back, random texts (numbers of all notations, literals, near misses, noise) converted to values, against an independent reading of the text; "
         "non-trivial: a fraction, exponent, type limit, sign or surrounding whitespace is involved, or the text represents no value")

namespace {
// what a text means: 0 none, 1 value, 2 either way is acceptable
int meaning(const Bytes& raw, Doc& d)
{
    size_t a = 0, z = raw.size(); auto sp = [](char x) { return x == ' ' || (x >= 9 && x <= 13); };
    while(a < z && sp(raw[a])) a++; while(z > a && sp(raw[z - 1])) z--;
    Bytes t = raw.substr(a, z - a);
    if(t.empty()) return 0;
    if(t == "true" || t == "false") { d = Doc::boolean(t == "true"); return 1; }
    if(t == "null") { d = Doc(); return 1; }
    Bytes low; for(char x : t) low += (char)tolower((unsigned char)x);
    if(low == "true" || low == "false" || low == "null") return 2;
    Bytes u = low; if(u[0] == '-' || u[0] == '+') u.erase(0, 1);
    if(u.rfind("inf", 0) == 0 || u.rfind("nan", 0) == 0 || u.rfind("0x", 0) == 0) return 2;
    if(low[0] == '+') return 2;
    size_t p = 0; if(low[p] == '-') p++;
    size_t d0 = p; while(p < low.size() && isdigit((unsigned char)low[p])) p++; size_t nint = p - d0;
    bool frac = false, exp = false; size_t nfrac = 0;
    if(p < low.size() && low[p] == '.') { p++; size_t q = p; while(p < low.size() && isdigit((unsigned char)low[p])) p++; nfrac = p - q; frac = true; }
    if(nint + nfrac == 0) return 0;
    if(p < low.size() && low[p] == 'e') { size_t q = p + 1; if(q < low.size() && (low[q] == '+' || low[q] == '-')) q++; size_t r = q; while(r < low.size() && isdigit((unsigned char)low[r])) r++; if(r > q) { p = r; exp = true; } }
    if(p != low.size()) return 0;
    if(frac && (nfrac == 0 || nint == 0)) return 2;                        // "5." ".5"
    if(nint > 1 && low[d0] == '0') { if(!frac && !exp) { } }
    double v = strtod(low.c_str(), nullptr);
    if(!frac && !exp) {
        __int128 x = 0; bool over = false;
        for(size_t i = d0; i < d0 + nint; i++) { x = x * 10 + (low[i] - '0'); if(x > ((__int128)1 << 70)) { over = true; break; } }
        if(low[0] == '-') x = -x;
        if(!over && x >= -((__int128)1 << 63) && x < ((__int128)1 << 64)) { d = Doc::integer(x); return 1; }
    }
    if(std::isinf(v)) return 2;
    d = Doc::flt(v); return 1;
}
Bytes gen_text(Case& c)
{
    Gen g(c); Bytes t;
    switch(c.weighted({ 25, 20, 15, 15, 10, 15 })) {
        case 0: { CT k = (CT)c.draw(8); __int128 v = g.integer_for(k); if(c.chance(1, 4)) v = v * (int64_t)c.draw(25) + (int64_t)c.draw(20) - 10; t = i128(v); break; }
        case 1: { char b[64]; snprintf(b, 64, "%.*g", (int)(1 + c.draw(17)), g.dbl()); t = b; break; }
        case 2: { if(c.flip()) t = "-"; size_t n = c.draw(25); for(size_t i = 0; i < n; i++) t += (char)('0' + c.draw(10)); if(c.flip()) { t += '.'; n = c.chance(1, 12) ? c.draw(400) : c.draw(12); for(size_t i = 0; i < n; i++) t += (char)('0' + c.draw(10)); } if(c.flip()) { t += "eE"[c.draw(2)]; t += c.pickl<const char*>({ "", "+", "-" }); t += std::to_string(c.draw(310)); } break; }
        case 3: t = c.pickl<const char*>({ "true", "false", "null", "True", "tru", "truee", "nul", "nulll", "fals", "falsee", "t", "f", "n", "xrue", "trUe", "fAlse", "true false", "falsy" }); break;
        case 4: t = c.pickl<const char*>({ "", " ", "-", "+", ".", "e5", "-.", "1.2.3", "1-2", "--1", "1e", "1e+", "12a", "a12", "0x", "1,5", "1 2", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "30000000000000000000", "99999999999999999999", "0", "-0", "00012", "184467440737095516160" }); break;
        default: { size_t n = c.draw(14); for(size_t i = 0; i < n; i++) t += "0123456789+-.eE xtrufalsn\t"[c.draw(26)]; }
    }
    if(c.chance(1, 4)) { Bytes ws = " \t\n\r\v\f"; for(size_t k = c.draw(4); k--;) t = ws[c.draw(6)] + t; for(size_t k = c.draw(4); k--;) t += ws[c.draw(6)]; }
    if(c.chance(1, 12) && t.size()) t.insert(c.draw(t.size() + 1), 1, (char)c.draw(256));
    if(c.chance(1, 40)) t += Bytes(1, '\0');
    return t;
}
Doc val(const Srl::Value& v) { return dump(v); }
bool same_value(const Doc& a, const Doc& b)
{
    if(a.k == Flt && b.k == Flt) return a.f == b.f || (std::isnan(a.f) && std::isnan(b.f));
    if(a.k == Int && b.k == Flt) return (double)a.i == b.f && (__int128)b.f == a.i;
    if(a.k == Flt && b.k == Int) return same_value(b, a);
    if(a.k == Int && b.k == Int) return a.i == b.i;
    return equal(a, b);
}
}

PBT_TEST(value_to_text, 50000, 2500000)
{
    Gen g(c); g.big = false; Doc d;
    do { d = g.scalar(); } while(d.k == Str || d.k == Bin);
    Srl::Tree t; auto w = Doc::obj(); w.m.emplace_back("v", d); make(t, w);
    Srl::Value v = t.root().value("v");
    auto s = Srl::Tools::type_to_str(v);
    c.nontrivial(d.k != Bool && d.k != Null); c.note(show(d), " -> ", quote(s));
    Doc m; int k = meaning(s, m);
    CHECK(c, k == 1, "text form " << quote(s) << " of " << show(d) << " represents no value");
    if(d.k == Flt) {
        double x = strtod(s.c_str(), nullptr);
        CHECK(c, x == d.f, "text form " << quote(s) << " of " << show(d) << " re-reads as " << show(Doc::flt(x)));
        size_t digits = 0, tail = 0; bool plain = true; for(char x2 : s.substr(0, s.find_first_of("eE"))) if(isdigit((unsigned char)x2)) { if(digits || x2 != '0') { digits++; tail = x2 == '0' ? tail + 1 : 0; } } 
        plain = s.find_first_of(".eE") == Bytes::npos;
        CHECK(c, digits - tail <= 17 || plain, "more than 17 significant digits: " << s);
    } else CHECK(c, equal(m, d), "text form of " << show(d) << " is " << quote(s));
    // buffer variant, appended to a used buffer
    std::vector<uint8_t> buf(c.draw(40), 'x'); size_t n = Srl::Tools::type_to_str(v, buf);
    CHECK(c, buf.size() >= n && Bytes((char*)buf.data(), n) == s, "both variants of type_to_str differ");
    // and back through the library
    auto r = Srl::Tools::str_to_type((const uint8_t*)s.data(), s.size(), d.k == Flt && c.flip() ? Srl::Type::FP64 : Srl::Type::Null);
    CHECK(c, r.first, "own text " << quote(s) << " refused");
    Doc back = val(r.second);
    CHECK(c, same_value(back, d) || (d.k == Flt && std::fabs(d.f) >= 9223372036854775808.0 && back.k == Int && (double)back.i == d.f), "own text " << quote(s) << " of " << show(d) << " read as " << show(back));
    // read as string from the document
    auto str1 = t.root().unwrap_field<std::string>("v");
    if(d.k != Null) CHECK(c, str1 == s, "read as string: " << quote(str1) << " but text form is " << quote(s));
    // strings in other encodings
    if(d.k != Null) { auto s16 = t.root().unwrap_field<std::u16string>("v"); CHECK(c, s16 == to16(from_utf8(s)), "read as UTF-16 string"); }
}

PBT_TEST(text_to_value, 60000, 3000000)
{
    auto t = gen_text(c); Doc m; int k = meaning(t, m);
    c.nontrivial(k != 1 || m.k == Flt || t.size() > 3); c.label(k == 0 ? "no value" : k == 1 ? "value" : "ambiguous");
    c.note(quote(t), " means ", k == 1 ? show(m) : k == 0 ? "nothing" : "?");
    std::unique_ptr<uint8_t[]> p(new uint8_t[t.size()]); memcpy(p.get(), t.data(), t.size());
    std::pair<bool, Srl::Value> r { false, Srl::Value() };
    auto ex = thrown([&] { r = Srl::Tools::str_to_type(p.get(), t.size()); });
    CHECK(c, ex.empty(), "str_to_type throws " << ex);
    if(k == 0) CHECK(c, !r.first, "text " << quote(t) << " represents no value but is read as " << show(val(r.second)));
    if(k == 1) { CHECK(c, r.first, "text " << quote(t) << " refused, means " << show(m)); CHECK(c, same_value(val(r.second), m) && val(r.second).k == m.k, "text " << quote(t) << " read as " << show(val(r.second)) << ", means " << show(m)); }
    if(k == 1 && (m.k == Int || m.k == Flt)) { // hint floating point: the nearest double
        auto h = Srl::Tools::str_to_type(p.get(), t.size(), Srl::Type::FP64);
        double w = m.k == Int ? (double)m.i : m.f;
        CHECK(c, h.first && (val(h.second).k == Flt ? val(h.second).f == w : (double)val(h.second).i == w), "text " << quote(t) << " with floating-point hint");
    }
    // as String in any encoding
    bool ok; auto cps = from_utf8(t, &ok);
    if(ok && t.size()) {
        auto a = to16(cps); auto b = to32(cps);
        auto ra = Srl::Tools::str_to_type(Srl::String(a)), rb = Srl::Tools::str_to_type(Srl::String(b));
        CHECK(c, ra.first == r.first && rb.first == r.first && (!r.first || (same_value(val(ra.second), val(r.second)) && same_value(val(rb.second), val(r.second)))), "UTF-16/32 text is read differently: " << quote(t));
    }
    // as a text field read as number, stored by any format
    if(ok && k != 2) {
        Fmt f = pick_fmt(c);
        Srl::Tree tr; tr.root().insert("s", t); auto bytes = write(tr, f);
        double dv = -77; auto e1 = thrown([&] { with(f, [&](auto& ps) { Srl::Tree u; u.unpack(vec(bytes), ps, "s", dv); }); });
        if(k == 0) CHECK(c, !e1.empty(), "text " << quote(t) << " read as number " << dv);
        else { double w = m.k == Int ? (double)m.i : m.k == Flt ? m.f : m.k == Bool ? m.b : 0; CHECK(c, e1.empty() && dv == w, "text " << quote(t) << " read as double gives " << dv << " " << e1); }
        if(k == 1 && m.k == Int) {
            if(m.i >= 0) { uint64_t u = 1; Srl::Tree x; with(f, [&](auto& ps) { x.unpack(vec(bytes), ps, "s", u); }); CHECK(c, (__int128)u == m.i, "text " << quote(t) << " read as uint64: " << u); }
            if(m.i <= INT64_MAX) { int64_t u = 1; Srl::Tree x; with(f, [&](auto& ps) { x.unpack(vec(bytes), ps, "s", u); }); CHECK(c, (__int128)u == m.i, "text " << quote(t) << " read as int64: " << u); }
        }
    }
}

// number stored as number and read as text, or stored as that text and read as number: same result, in every format
PBT_TEST(text_and_number_agree, 12000, 500000)
{
    Gen g(c); g.big = false; Doc d;
    do { d = g.scalar(); } while(d.k == Str || d.k == Bin || d.k == Null);
    Fmt f = pick_fmt(c);
    auto w = Doc::obj(); w.m.emplace_back("v", d);
    auto b = write_doc(f, w);
    c.nontrivial(d.k != Bool); c.note(name(f), " ", show(d));
    std::string txt; with(f, [&](auto& p) { Srl::Tree u; source(pick_via(c), b, pick_chunk(c), [&](auto& s) { u.unpack(s, p, "v", txt); }); });
    Doc m; int k = meaning(txt, m);
    CHECK(c, k == 1, "stored " << show(d) << " reads as text " << quote(txt));
    bool huge = d.k == Flt && std::fabs(d.f) >= 9223372036854775808.0;
    CHECK(c, same_value(m, d) || (huge && strtod(txt.c_str(), nullptr) == d.f), "stored " << show(d) << " in " << name(f) << " reads as text " << quote(txt));
    auto w2 = Doc::obj(); w2.m.emplace_back("v", Doc::str(txt));
    auto b2 = write_doc(f, w2);
    with(f, [&](auto& p) {
        Srl::Tree u;
        if(d.k == Flt) { double x = 1; u.unpack(vec(b2), p, "v", x); CHECK(c, x == d.f, "text " << quote(txt) << " of " << show(d) << " read as " << show(Doc::flt(x))); }
        else if(d.k == Bool) { bool x = !d.b; u.unpack(vec(b2), p, "v", x); CHECK(c, x == d.b, "text " << quote(txt)); }
        else if(d.i >= 0) { uint64_t x = 1; u.unpack(vec(b2), p, "v", x); CHECK(c, (__int128)x == d.i, "text " << quote(txt)); }
        else { int64_t x = 1; u.unpack(vec(b2), p, "v", x); CHECK(c, (__int128)x == d.i, "text " << quote(txt)); }
        return 0;
    });
}
