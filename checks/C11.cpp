// C11: numeric conversions are exact or refused.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C11", "random source numbers (every C++ numeric type, biased to type limits, powers of two, fractions, extreme and non-finite floating-point values; or number text) read into every numeric "
         "type, directly, from documents and through all formats, against exact arithmetic; non-trivial: the source is out of range of, or not exactly representable in, at least one target type")

namespace {
struct Src { bool fp = false; bool isbool = false, null = false; __int128 i = 0; double f = 0; CT ct = I64; };
std::string show(const Src& s) { return s.null ? "null" : s.isbool ? (s.i ? "true" : "false") : doc::show(s.fp ? Doc::flt(s.f, s.ct) : Doc::integer(s.i, s.ct)); }

enum Want { Exact, Refuse, Either };
// what reading s into T has to give
template<class T> Want want(const Src& s, T& v)
{
    using L = std::numeric_limits<T>;
    if(s.null) { v = T(); return Exact; }
    if constexpr(std::is_same<T, bool>::value) {
        if(s.fp) {
            if(s.f == 0 || s.f == 1) { v = s.f == 1; return Exact; }
            if(std::isfinite(s.f) && s.f > -1 && s.f < 2) return Either;      // fraction: true or refused, both are sensible
            return Refuse;
        }
        if(s.i == 0 || s.i == 1) { v = s.i == 1; return Exact; }
        return Refuse;
    } else if constexpr(std::is_integral<T>::value) {
        __int128 lo = L::min(), hi = L::max();
        if(s.fp) {
            if(!std::isfinite(s.f) || std::fabs(s.f) > 1e30) return Refuse;
            double t = std::trunc(s.f); __int128 x = (__int128)t;
            if(x < lo || x > hi) return Refuse;
            v = (T)x;
            if(t != s.f && (s.f < (long double)lo || s.f > (long double)hi)) return Either;   // in range only after truncation
            return Exact;
        }
        if(s.i < lo || s.i > hi) return Refuse;
        v = (T)s.i; return Exact;
    } else {
        if(s.fp) {
            if(std::isnan(s.f)) { v = (T)NAN; return sizeof(T) == 8 || s.ct == F32 ? Exact : Either; }
            if(std::isinf(s.f)) { v = (T)s.f; return sizeof(T) == 8 || s.ct == F32 ? Exact : Either; }
            if(sizeof(T) == 4 && std::fabs(s.f) > (double)L::max()) { v = s.f > 0 ? L::max() : L::lowest(); return std::isinf((float)s.f) ? Refuse : Either; }
            v = (T)s.f; return Exact;
        }
        v = (T)s.i; return Exact;
    }
}
template<class T> bool same(T a, T b) { if constexpr(std::is_floating_point<T>::value) return (std::isnan(a) && std::isnan(b)) || (a == b && (a != 0 || true)); else return a == b; }
template<class T> std::string num(T v) { std::ostringstream o; o.precision(20); if constexpr(std::is_floating_point<T>::value) o << v; else o << i128((__int128)v); return o.str(); }
template<class T> const char* tname()
{
    if(std::is_same<T, bool>::value) return "bool"; if(std::is_same<T, float>::value) return "float"; if(std::is_same<T, double>::value) return "double";
    static const char* n[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64" };
    int k = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 2 : sizeof(T) == 4 ? 4 : 6; return n[k + !std::is_signed<T>::value];
}
template<class F> void targets(F&& f)
{
    f(bool()); f(int8_t()); f(uint8_t()); f(int16_t()); f(uint16_t()); f(int32_t()); f(uint32_t()); f(int64_t()); f(uint64_t()); f(float()); f(double());
}
// judges one read
template<class T, class R> bool judge(Case& c, const Src& s, const char* how, R&& read)
{
    T w{}; auto wn = want<T>(s, w);
    T got{}; std::string m = thrown([&] { got = read(T()); });
    if(!m.empty()) CHECK(c, wn != Exact, how << ": " << show(s) << " refused as " << tname<T>() << ", expected " << num(w) << " (" << m << ")");
    else {
        CHECK(c, wn != Refuse, how << ": " << show(s) << " read as " << tname<T>() << " gives " << num(got) << " instead of being refused");
        if(wn == Exact) CHECK(c, same(got, w), how << ": " << show(s) << " read as " << tname<T>() << " gives " << num(got) << ", expected " << num(w));
    }
    return wn != Exact;
}
Src gen_src(Case& c, bool nonfinite = true)
{
    Gen g(c); g.nonfinite = nonfinite; Src s;
    switch(c.weighted({ 45, 45, 4, 2 })) {
        case 0: s.ct = (CT)c.draw(8); s.i = g.integer_for(s.ct); break;
        case 1:
            s.fp = true; s.ct = c.chance(1, 4) ? F32 : F64;
            if(c.flip()) { // around the limits of the integer types
                double base = std::ldexp(1.0, c.pickl<int>({ 0, 7, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128 })); if(c.flip()) base = -base;
                switch(c.draw(6)) { case 0: s.f = base; break; case 1: s.f = base - 1; break; case 2: s.f = base + 1; break; case 3: s.f = std::nextafter(base, 0); break; case 4: s.f = std::nextafter(base, INFINITY); break; default: s.f = base + ((double)c.draw(8) - 4) / 4; }
            } else s.f = g.dbl();
            if(s.ct == F32) { s.f = (float)s.f; if(!nonfinite && !std::isfinite(s.f)) s.f = 1; }
            break;
        case 2: s.isbool = true; s.i = c.flip(); break;
        default: s.null = true;
    }
    return s;
}
template<class F> auto as_native(const Src& s, F&& f)
{
    if(s.isbool) return f((bool)s.i);
    if(s.fp) { if(s.ct == F32) return f((float)s.f); return f(s.f); }
    switch(s.ct) {
        case I8: return f((int8_t)s.i); case U8: return f((uint8_t)s.i); case I16: return f((int16_t)s.i); case U16: return f((uint16_t)s.i);
        case I32: return f((int32_t)s.i); case U32: return f((uint32_t)s.i); case U64: return f((uint64_t)s.i); default: return f((int64_t)s.i);
    }
}
bool hard(const Src& s) { bool r = false; targets([&](auto t) { using T = decltype(t); T w{}; if(want<T>(s, w) != Exact) r = true; }); return r || (s.fp && s.f != std::floor(s.f)); }
}

PBT_TEST(direct, 60000, 3000000)
{
    auto s = gen_src(c);
    c.nontrivial(hard(s)); c.note(show(s));
    Srl::Tree t;
    if(s.null) t.root().insert("v", nullptr); else as_native(s, [&](auto x) { t.root().insert("v", x); return 0; });
    Srl::Value val = t.root().value("v");
    targets([&](auto z) {
        using T = decltype(z);
        judge<T>(c, s, "Value::unwrap", [&](auto) { return val.template unwrap<T>(); });
        judge<T>(c, s, "Value::paste", [&](auto) { T o = T(77); val.paste(o); return o; });
        judge<T>(c, s, "unwrap_field", [&](auto) { return t.root().template unwrap_field<T>("v"); });
        judge<T>(c, s, "Union", [&](auto) { T x = t.get("v"); return x; });
        if(!s.null) judge<T>(c, s, "Value(x)", [&](auto) { return as_native(s, [&](auto x) { return Srl::Value(x).unwrap<T>(); }); });
    });
}

PBT_TEST(through_formats, 14000, 600000)
{
    Fmt f = pick_fmt(c); auto s = gen_src(c, !text(f));
    c.nontrivial(hard(s)); c.note(name(f), " ", show(s));
    Srl::Tree t; Bytes b;
    bool many = c.flip(); size_t n = 1 + c.draw(3);
    Doc d = Doc::obj(), v = s.null ? Doc() : s.isbool ? Doc::boolean(s.i) : s.fp ? Doc::flt(s.f, s.ct) : Doc::integer(s.i, s.ct);
    if(many) { Doc a = Doc::arr(); for(size_t i = 0; i < n; i++) a.m.emplace_back("", v); d.m.emplace_back("v", a); } else d.m.emplace_back("v", v);
    b = write_doc(f, d);
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    // a text format hands on an integer for an integral floating-point number (see C02); beyond 2^63 its digits denote the value as double only
    if(text(f) && s.fp && std::fabs(s.f) >= 9223372036854775808.0) { c.excluded("integral text of a double beyond 2^63 read as integer"); }
    Srl::Tree doc; load(doc, f, b, via, chunk);
    targets([&](auto z) {
        using T = decltype(z);
        if(text(f) && s.fp && std::fabs(s.f) >= 9223372036854775808.0 && std::is_integral<T>::value && !std::is_same<T, bool>::value && sizeof(T) == 8) return;
        with(f, [&](auto& p) {
            judge<T>(c, s, many ? "restored vector" : "unpack", [&](auto) {
                return source(via, b, chunk, [&](auto& src) {
                    Srl::Tree u;
                    if(many) { std::list<T> l; u.unpack(src, p, "v", l); if(l.size() != n) throw std::logic_error("wrong number of elements"); for(auto& x : l) if(!same(x, l.front())) throw std::logic_error("elements differ"); return l.front(); }
                    T x = T(1); u.unpack(src, p, "v", x); return x;
                });
            });
            return 0;
        });
        judge<T>(c, s, "loaded document", [&](auto) {
            if(many) { auto l = doc.root().node("v").template unwrap<std::list<T>>(); if(l.size() != n) throw std::logic_error("wrong number of elements"); return T(l.back()); }
            return doc.root().template unwrap_field<T>("v");
        });
    });
}

PBT_TEST(from_text, 25000, 1000000)
{
    Gen g(c); Src s; Bytes txt;
    switch(c.draw(4)) {
        case 0: { // integers, also beyond 64 bits
            CT t = (CT)c.draw(8); __int128 v = g.integer_for(t); if(c.chance(1, 3)) v = v * (int64_t)(c.draw(21)) + (int64_t)c.draw(100) - 50;
            txt = i128(v); if(v >= -((__int128)1 << 63) && v < ((__int128)1 << 64)) s.i = v; else { s.fp = true; s.f = strtod(txt.c_str(), nullptr); }
            break; }
        case 1: { char b[64]; s.fp = true; s.f = g.dbl(); snprintf(b, 64, "%.17g", s.f); txt = b; if(txt.find_first_of(".e") == Bytes::npos) txt += ".0"; break; }
        case 2: { s.fp = true; txt = std::to_string((int64_t)c.draw64() >> c.draw(64)) + "." + std::to_string(c.draw(1000)) + c.pickl<const char*>({ "", "e0", "e1", "E-2", "e+3" }); s.f = strtod(txt.c_str(), nullptr); break; }
        default: { size_t n = 1 + c.draw(25); if(c.flip()) txt = "-"; txt += (char)('1' + c.draw(9)); for(size_t i = 1; i < n; i++) txt += (char)('0' + c.draw(10));
            errno = 0; if(txt[0] == '-') { long long x = strtoll(txt.c_str(), nullptr, 10); if(errno) s.fp = true; else s.i = x; } else { unsigned long long x = strtoull(txt.c_str(), nullptr, 10); if(errno) s.fp = true; else s.i = x; }
            if(s.fp) s.f = strtod(txt.c_str(), nullptr); }
    }
    // -2^63 as double stands for a range of integers beyond 64 bits; text beyond 64 bits denotes the nearest double
    Bytes padded = Bytes(c.draw(3), ' ') + txt + Bytes(c.draw(3), '\n');
    c.nontrivial(hard(s)); c.note("text ", quote(padded));
    Srl::Tree t; t.root().insert("v", padded);
    bool wide = c.flip(); if(wide) t.root().insert("w", to16(from_utf8(padded)));
    Fmt f = pick_fmt(c); auto b = write(t, f);
    targets([&](auto z) {
        using T = decltype(z);
        if(s.fp && std::is_same<T, float>::value && s.f == s.f) { // text -> double -> float may round twice: neighbours are equally acceptable
        }
        judge<T>(c, s, "text", [&](auto) { return t.root().template unwrap_field<T>("v"); });
        if(wide) judge<T>(c, s, "UTF-16 text", [&](auto) { return t.root().value("w").template unwrap<T>(); });
        judge<T>(c, s, "text restored", [&](auto) { return with(f, [&](auto& p) { Srl::Tree u; T x = T(1); u.unpack(vec(b), p, "v", x); return x; }); });
    });
}
