#include "doc.hpp"
#include <algorithm>
#include <cstdlib>
#include <limits>

namespace doc {

const char* const collide[4] = { "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf" };

Bytes utf8(uint32_t cp)
{
    Bytes o;
    if(cp < 0x80) o += (char)cp;
    else if(cp < 0x800) { o += (char)(0xC0 | cp >> 6); o += (char)(0x80 | (cp & 63)); }
    else if(cp < 0x10000) { o += (char)(0xE0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
    else { o += (char)(0xF0 | cp >> 18); o += (char)(0x80 | (cp >> 12 & 63)); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
    return o;
}

std::vector<uint32_t> from_utf8(const Bytes& s, bool* ok)
{
    std::vector<uint32_t> r; if(ok) *ok = true;
    for(size_t i = 0; i < s.size();) {
        uint8_t b = s[i]; size_t n = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
        if(!n || i + n > s.size()) { if(ok) *ok = false; return r; }
        uint32_t cp = n == 1 ? b : b & (0xFF >> (n + 1));
        for(size_t k = 1; k < n; k++) { uint8_t x = s[i + k]; if((x & 0xC0) != 0x80) { if(ok) *ok = false; return r; } cp = cp << 6 | (x & 63); }
        if((n == 2 && cp < 0x80) || (n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) { if(ok) *ok = false; return r; }
        r.push_back(cp); i += n;
    }
    return r;
}
std::u16string to16(const std::vector<uint32_t>& v)
{
    std::u16string o;
    for(auto cp : v) if(cp < 0x10000) o += (char16_t)cp; else { cp -= 0x10000; o += (char16_t)(0xD800 + (cp >> 10)); o += (char16_t)(0xDC00 + (cp & 0x3FF)); }
    return o;
}
std::u32string to32(const std::vector<uint32_t>& v) { std::u32string o; for(auto cp : v) o += (char32_t)cp; return o; }

static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
Bytes base64(const Bytes& s)
{
    Bytes o; size_t i = 0;
    for(; i + 2 < s.size(); i += 3) {
        uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2];
        for(int k = 18; k >= 0; k -= 6) o += b64[v >> k & 63];
    }
    if(s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; o += b64[v >> 18]; o += b64[v >> 12 & 63]; o += "=="; }
    if(s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += b64[v >> 18]; o += b64[v >> 12 & 63]; o += b64[v >> 6 & 63]; o += '='; }
    return o;
}
std::optional<Bytes> base64_decode(const Bytes& s)
{
    if(s.size() % 4) return {};
    Bytes o;
    for(size_t i = 0; i < s.size(); i += 4) {
        int v[4], pad = 0; bool last = i + 4 == s.size();
        for(int k = 0; k < 4; k++) {
            char ch = s[i + k];
            if(ch == '=') { if(!last || k < 2 || (k == 2 && s[i + 3] != '=')) return {}; pad++; v[k] = 0; continue; }
            auto* p = (const char*)memchr(b64, ch, 64); if(!p) return {};
            v[k] = (int)(p - b64);
        }
        uint32_t x = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
        o += (char)(x >> 16); if(pad < 2) o += (char)(x >> 8); if(pad < 1) o += (char)x;
    }
    return o;
}
Bytes hex(const Bytes& s, size_t max)
{
    Bytes o; char b[4];
    for(size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, 4, "%02x", (uint8_t)s[i]); o += b; }
    if(s.size() > max) o += "..(" + std::to_string(s.size()) + " bytes)";
    return o;
}
std::string quote(const Bytes& s, size_t max)
{
    std::string o = "\""; char b[8];
    for(size_t i = 0; i < s.size() && i < max; i++) {
        uint8_t ch = s[i];
        if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if(ch < 0x20 || ch >= 0x7F) { snprintf(b, 8, "\\x%02x", ch); o += b; } else o += (char)ch;
    }
    o += "\""; if(s.size() > max) o += "..(" + std::to_string(s.size()) + " bytes)";
    return o;
}
std::string i128(__int128 v)
{
    if(v == 0) return "0";
    bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; std::string s;
    while(u) { s += (char)('0' + (int)(u % 10)); u /= 10; }
    if(n) s += '-';
    std::reverse(s.begin(), s.end()); return s;
}
std::string show(const Doc& d, size_t max)
{
    std::string o; char b[64];
    static const char* ctn[] = { "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64" };
    switch(d.k) {
        case Null: o = "null"; break;
        case Bool: o = d.b ? "true" : "false"; break;
        case Int:  o = i128(d.i) + ":" + ctn[d.ct]; break;
        case Flt:  snprintf(b, 64, "%.17g:%s", d.f, ctn[d.ct]); o = b; break;
        case Str:  o = quote(d.s, 120); break;
        case Bin:  o = "bin'" + hex(d.s, 60) + "'"; break;
        case Obj: case Arr:
            o = d.k == Obj ? "{" : "[";
            for(auto& x : d.m) { if(o.size() > max) { o += " ...(" + std::to_string(d.m.size()) + " items)"; break; } if(o.size() > 1) o += ", "; if(d.k == Obj) o += quote(x.first, 60) + ": "; o += show(x.second, max / 2 + 20); }
            o += d.k == Obj ? "}" : "]";
    }
    return o;
}

Doc norm(const Doc& d)
{
    if(!d.scope()) return d;
    Doc r; r.k = d.k;
    for(int pass = 0; pass < 2; pass++)
        for(auto& x : d.m) if(x.second.scope() == (pass == 1)) r.m.emplace_back(d.k == Obj ? x.first : Bytes(), norm(x.second));
    return r;
}
bool text_equal(const Doc& a, const Doc& b, std::string* why) { return equal(text_norm(a), text_norm(b), why, "$", true); }
Doc text_norm(const Doc& d)
{
    Doc r = d;
    if(d.k == Bin) { r.k = Str; r.s = base64(d.s); }
    else if(d.k == Flt && std::isfinite(d.f) && std::floor(d.f) == d.f && d.f >= -9223372036854775808.0 && d.f < 9223372036854775808.0) { r.k = Int; r.i = (__int128)d.f; }
    else if(d.scope()) { r = norm(d); for(auto& x : r.m) x.second = text_norm(x.second); }
    return r;
}
bool equal_num(const Doc& a, const Doc& b)
{
    if(a.k == Int && b.k == Int) return a.i == b.i;
    if(a.k == Flt && b.k == Flt) return (std::isnan(a.f) && std::isnan(b.f)) || (a.f == b.f && std::signbit(a.f) == std::signbit(b.f));
    return false;
}
bool equal(const Doc& a, const Doc& b, std::string* why, const std::string& path, bool mixed)
{
    auto no = [&](const std::string& m) { if(why) *why = path + ": " + m; return false; };
    // shortest text of a floating-point number beyond 2^63 is an integer which denotes it only as floating-point number
    if(mixed && a.k == Int && b.k == Flt && std::fabs(b.f) >= 9223372036854775808.0) return (double)a.i == b.f || no("number differs: " + show(a) + " vs " + show(b));
    if(mixed && a.k == Flt && b.k == Int && std::fabs(a.f) >= 9223372036854775808.0) return (double)b.i == a.f || no("number differs: " + show(a) + " vs " + show(b));
    if(a.k != b.k) return no("kind differs: " + show(a, 200) + " vs " + show(b, 200));
    switch(a.k) {
        case Null: return true;
        case Bool: return a.b == b.b || no("bool differs");
        case Int: case Flt: return equal_num(a, b) || no("number differs: " + show(a) + " vs " + show(b));
        case Str: case Bin: return a.s == b.s || no("content differs: " + quote(a.s, 200) + " vs " + quote(b.s, 200));
        default: break;
    }
    if(a.m.size() != b.m.size()) return no("number of items differs: " + std::to_string(a.m.size()) + " vs " + std::to_string(b.m.size()) + "  " + show(a, 300) + " vs " + show(b, 300));
    for(size_t i = 0; i < a.m.size(); i++) {
        if(a.m[i].first != b.m[i].first) return no("name of item " + std::to_string(i) + " differs: " + quote(a.m[i].first, 80) + " vs " + quote(b.m[i].first, 80));
        if(!equal(a.m[i].second, b.m[i].second, why, path + (a.k == Obj ? "." + quote(a.m[i].first, 30) : "[" + std::to_string(i) + "]"), mixed)) return false;
    }
    return true;
}
size_t depth(const Doc& d) { size_t x = 0; for(auto& m : d.m) x = std::max(x, depth(m.second)); return d.scope() ? x + 1 : 0; }
size_t nodes(const Doc& d) { size_t x = 1; for(auto& m : d.m) x += nodes(m.second); return x; }

// ---------------------------------------------------------------- JSON
namespace {
struct JP {
    const Bytes& s; size_t p = 0; int lvl = 0;
    [[noreturn]] void bad(const char* m) { throw Bad(std::string("JSON: ") + m + " at offset " + std::to_string(p)); }
    int  peek() { return p < s.size() ? (uint8_t)s[p] : -1; }
    void ws() { while(p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++; }
    uint32_t hex4()
    {
        if(p + 4 > s.size()) bad("short \\u");
        uint32_t v = 0;
        for(int i = 0; i < 4; i++) { int ch = (uint8_t)s[p++]; v = v * 16 + (ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : (bad("bad hex"), 0)); }
        return v;
    }
    Bytes string()
    {
        Bytes o; if(peek() != '"') bad("string expected");
        p++;
        for(;;) {
            int ch = peek(); if(ch < 0) bad("unterminated string");
            p++;
            if(ch == '"') break;
            if(ch < 0x20) bad("raw control character in string");
            if(ch != '\\') { o += (char)ch; continue; }
            ch = peek(); p++;
            switch(ch) {
                case '"': case '\\': case '/': o += (char)ch; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
                case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': {
                    uint32_t v = hex4();
                    if(v >= 0xD800 && v < 0xDC00) { if(p + 2 > s.size() || s[p] != '\\' || s[p + 1] != 'u') bad("lone surrogate"); p += 2; uint32_t lo = hex4(); if(lo < 0xDC00 || lo > 0xDFFF) bad("lone surrogate"); v = 0x10000 + ((v - 0xD800) << 10) + (lo - 0xDC00); }
                    else if(v >= 0xDC00 && v < 0xE000) bad("lone surrogate");
                    o += utf8(v); break;
                }
                default: bad("invalid escape");
            }
        }
        bool ok; from_utf8(o, &ok); if(!ok) bad("string is not UTF-8");
        return o;
    }
    Doc number()
    {
        size_t b = p; bool frac = false;
        if(peek() == '-') p++;
        if(peek() == '0') p++; else if(peek() >= '1' && peek() <= '9') while(peek() >= '0' && peek() <= '9') p++; else bad("number expected");
        if(peek() == '.') { frac = true; p++; if(!(peek() >= '0' && peek() <= '9')) bad("digit expected"); while(peek() >= '0' && peek() <= '9') p++; }
        if(peek() == 'e' || peek() == 'E') { frac = true; p++; if(peek() == '+' || peek() == '-') p++; if(!(peek() >= '0' && peek() <= '9')) bad("digit expected"); while(peek() >= '0' && peek() <= '9') p++; }
        Bytes t = s.substr(b, p - b);
        if(!frac) {
            __int128 v = 0; bool neg = t[0] == '-', fits = true;
            for(size_t i = neg; i < t.size() && fits; i++) { v = v * 10 + (t[i] - '0'); if(v > ((__int128)1 << 64)) fits = false; }
            if(neg) v = -v;
            if(fits && v >= -((__int128)1 << 63) && v < ((__int128)1 << 64)) return Doc::integer(v, v < 0 ? I64 : U64);
        }
        return Doc::flt(strtod(t.c_str(), nullptr));
    }
    bool lit(const char* w) { size_t n = strlen(w); if(s.compare(p, n, w) == 0) { p += n; return true; } return false; }
    Doc value()
    {
        ws(); int ch = peek(); Doc d;
        if(++lvl > 2000) bad("too deep");
        if(ch == '{') {
            d.k = Obj; p++; ws();
            if(peek() == '}') p++;
            else for(;;) { ws(); Bytes n = string(); ws(); if(peek() != ':') bad("':' expected"); p++; d.m.emplace_back(std::move(n), value()); ws(); if(peek() == ',') { p++; continue; } if(peek() == '}') { p++; break; } bad("',' or '}' expected"); }
        } else if(ch == '[') {
            d.k = Arr; p++; ws();
            if(peek() == ']') p++;
            else for(;;) { d.m.emplace_back(Bytes(), value()); ws(); if(peek() == ',') { p++; continue; } if(peek() == ']') { p++; break; } bad("',' or ']' expected"); }
        } else if(ch == '"') d = Doc::str(string());
        else if(lit("true")) d = Doc::boolean(true);
        else if(lit("false")) d = Doc::boolean(false);
        else if(lit("null")) d = Doc();
        else d = number();
        lvl--;
        return d;
    }
};
}
Doc json_parse(const Bytes& s) { JP p { s }; Doc d = p.value(); p.ws(); if(p.p != s.size()) p.bad("trailing characters"); return d; }
Bytes json_strip(const Bytes& s)
{
    Bytes o; bool q = false;
    for(size_t i = 0; i < s.size(); i++) {
        char ch = s[i];
        if(q) { o += ch; if(ch == '\\' && i + 1 < s.size()) o += s[++i]; else if(ch == '"') q = false; }
        else if(ch == '"') { q = true; o += ch; }
        else if(!(ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) o += ch;
    }
    return o;
}

namespace {
void j_ws(Case& c, Bytes& o, const JsonStyle& st)
{
    if(!st.ws) return;
    size_t k = c.weighted({ 70, 20, 8, 2 });
    if(k == 0) return;
    size_t n = k == 1 ? 1 + c.draw(2) : k == 2 ? 1 + c.draw(8) : 1 + c.draw(200);
    for(size_t i = 0; i < n; i++) o += " \n\t\r"[c.draw(4)];
    if(st.comments && c.chance(1, 4)) {
        Bytes body; size_t len = c.size(40);
        for(size_t i = 0; i < len; i++) body += "ab,:{}[]\"/ *'01\\"[c.draw(16)];
        if(c.flip()) { for(size_t x; (x = body.find("*/")) != Bytes::npos;) body.erase(x, 1); if(body.size() && body.back() == '*') body.pop_back(); o += "/*" + body + "*/"; }
        else o += "//" + body + c.pickl<const char*>({ "\n", "\r\n", "\r" });
        if(c.flip()) o += " ";
    }
}
void j_str(Case& c, Bytes& o, const Bytes& s, const JsonStyle& st)
{
    o += '"'; char b[16];
    unsigned mode = st.escapes ? c.draw(4) : 0;       // 0 minimal, 1 some, 2 many, 3 all \u
    for(auto cp : from_utf8(s)) {
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        bool esc = must || (mode == 3) || (mode == 2 && c.chance(1, 2)) || (mode == 1 && c.chance(1, 10));
        if(!esc) { o += utf8(cp); continue; }
        const char* f = "\"\\/\b\f\n\r\t"; const char* t = "\"\\/bfnrt";
        auto* x = cp && cp < 128 ? strchr(f, (int)cp) : nullptr;
        if(x && !(st.escapes && c.chance(1, 3))) { o += '\\'; o += t[x - f]; continue; }
        bool up = st.escapes && c.flip();
        if(cp < 0x10000) { snprintf(b, 16, up ? "\\u%04X" : "\\u%04x", cp); o += b; }
        else { uint32_t v = cp - 0x10000; snprintf(b, 16, up ? "\\u%04X" : "\\u%04x", 0xD800 + (v >> 10)); o += b; snprintf(b, 16, up ? "\\u%04X" : "\\u%04x", 0xDC00 + (v & 0x3FF)); o += b; }
    }
    o += '"';
}
Bytes j_num(Case& c, const Doc& d, const JsonStyle& st)
{
    char b[64];
    if(!st.numbers || c.chance(1, 2)) {
        if(d.k == Int) return i128(d.i);
        snprintf(b, 64, "%.17g", d.f); return b;
    }
    switch(c.draw(7)) {
        case 0: { Bytes t = d.k == Int ? i128(d.i) : (snprintf(b, 64, "%.17g", d.f), Bytes(b)); if(t.find_first_of(".eE") == Bytes::npos) t += ".0"; return t; }
        case 1: { Bytes t = d.k == Int ? i128(d.i) : (snprintf(b, 64, "%.17g", d.f), Bytes(b)); if(t.find_first_of("eE") == Bytes::npos) { t += c.flip() ? "e" : "E"; t += c.pickl<const char*>({ "0", "+0", "-0", "1", "+2", "-3", "12", "+005", "-20" }); } return t; }
        case 2: { // arbitrary digits, beyond 64 bit
            Bytes t; if(c.flip()) t += '-'; size_t n = 17 + c.draw(6); t += (char)('1' + c.draw(9)); for(size_t i = 1; i < n; i++) t += (char)('0' + c.draw(10)); return t; }
        case 3: { // around powers
            static const char* k[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967296", "-2147483649", "30000000000000000000", "99999999999999999999", "184467440737095516150", "1e308", "-1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "0.1", "-0", "-0.0", "0e5", "1E400e0", "123456789012345678901234567890", "0.000001", "1e-7", "9007199254740993", "9007199254740993.0" };
            Bytes t = k[c.draw(25)]; if(t == "1E400e0") t = "1e300"; return t; }
        case 4: { // many digits
            Bytes t = "0."; size_t n = c.size(c.chance(1, 10) ? 3000 : 60) + 1; for(size_t i = 0; i < n; i++) t += (char)('0' + c.draw(10)); return t; }
        case 5: { Bytes t; if(c.flip()) t += '-'; t += (char)('1' + c.draw(9)); t += '.'; size_t n = 1 + c.draw(20); for(size_t i = 0; i < n; i++) t += (char)('0' + c.draw(10)); t += c.pickl<const char*>({ "e", "E", "e+", "E-", "e-" }); t += std::to_string(c.draw(300)); return t; }
        default: snprintf(b, 64, "%.*g", (int)(1 + c.draw(17)), d.k == Int ? (double)d.i : d.f); { Bytes t = b; return t; }
    }
}
void j_val(Case& c, Bytes& o, const Doc& d, const JsonStyle& st, Doc& ex)
{
    ex = d;
    switch(d.k) {
        case Null: o += "null"; break;
        case Bool: o += d.b ? "true" : "false"; break;
        case Int: case Flt: { Bytes t = j_num(c, d, st); o += t; ex = json_parse(t); break; }
        case Str: j_str(c, o, d.s, st); break;
        case Bin: ex = Doc::str(base64(d.s)); j_str(c, o, ex.s, st); break;
        case Obj: case Arr: {
            ex.m.clear();
            o += d.k == Obj ? '{' : '['; j_ws(c, o, st); bool first = true;
            for(auto& x : d.m) {
                if(!first) { o += ','; j_ws(c, o, st); } first = false;
                if(d.k == Obj) { j_str(c, o, x.first, st); j_ws(c, o, st); o += ':'; j_ws(c, o, st); }
                Doc e; j_val(c, o, x.second, st, e); ex.m.emplace_back(d.k == Obj ? x.first : Bytes(), std::move(e));
                j_ws(c, o, st);
            }
            o += d.k == Obj ? '}' : ']';
        }
    }
}
}
Bytes json_write(Case& c, const Doc& d, const JsonStyle& st, Doc* expect)
{
    Bytes o; Doc ex; j_ws(c, o, st); j_val(c, o, d, st, ex); j_ws(c, o, st);
    if(expect) *expect = ex;
    return o;
}
Bytes json_plain(const Doc& d)
{
    std::vector<uint64_t> none; Case c; c.replay = &none; JsonStyle st; st.ws = st.escapes = st.numbers = false;
    return json_write(c, d, st);
}

// ---------------------------------------------------------------- MessagePack
namespace {
void be(Bytes& o, uint64_t v, int n) { for(int k = n - 1; k >= 0; k--) o += (char)(v >> (8 * k)); }
// pick one of the widths >= the minimal one
int width(Case* c, int minimal, int n) { return c && c->chance(1, 3) ? minimal + (int)c->draw(n - minimal) : minimal; }
void mp_str(Case* c, Bytes& o, const Bytes& s)
{
    size_t n = s.size(); int m = n < 32 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : 3;
    switch(width(c, m, 4)) { case 0: o += (char)(0xA0 | n); break; case 1: o += (char)0xD9; be(o, n, 1); break; case 2: o += (char)0xDA; be(o, n, 2); break; default: o += (char)0xDB; be(o, n, 4); }
    o += s;
}
void mp(Case* c, Bytes& o, const Doc& d)
{
    switch(d.k) {
        case Null: o += (char)0xC0; break;
        case Bool: o += (char)(d.b ? 0xC3 : 0xC2); break;
        case Int: {
            if(d.i >= 0 && (d.i >= ((__int128)1 << 63) || !c || c->flip())) {   // unsigned family
                uint64_t v = (uint64_t)d.i; int m = v < 128 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v <= 0xFFFFFFFFu ? 3 : 4; m = width(c, m, 5);
                if(m == 0) o += (char)v; else { o += (char)(0xCB + m); be(o, v, 1 << (m - 1)); }
            } else {
                int64_t v = (int64_t)d.i; int m = v >= -32 && v < 128 ? 0 : v >= -128 && v < 128 ? 1 : v >= -32768 && v < 32768 ? 2 : v >= -2147483648ll && v < 2147483648ll ? 3 : 4; m = width(c, m, 5);
                if(m == 0) o += (char)v; else { o += (char)(0xCF + m); be(o, (uint64_t)v, 1 << (m - 1)); }
            }
            break;
        }
        case Flt: {
            float f = (float)d.f; bool fits = (double)f == d.f || std::isnan(d.f);
            if(fits && (!c || c->flip())) { uint32_t u; memcpy(&u, &f, 4); o += (char)0xCA; be(o, u, 4); }
            else { uint64_t u; memcpy(&u, &d.f, 8); o += (char)0xCB; be(o, u, 8); }
            break;
        }
        case Str: mp_str(c, o, d.s); break;
        case Bin: { size_t n = d.s.size(); int m = width(c, n < 256 ? 0 : n < 65536 ? 1 : 2, 3); o += (char)(0xC4 + m); be(o, n, 1 << m); o += d.s; break; }
        case Obj: case Arr: {
            size_t n = d.m.size(); int m = width(c, n < 16 ? 0 : n < 65536 ? 1 : 2, 3); bool a = d.k == Arr;
            if(m == 0) o += (char)((a ? 0x90 : 0x80) | n); else { o += (char)((a ? 0xDB : 0xDD) + m); be(o, n, m == 1 ? 2 : 4); }
            for(auto& x : d.m) { if(!a) mp_str(c, o, x.first); mp(c, o, x.second); }
        }
    }
}
struct MP {
    const Bytes& s; size_t p = 0; int lvl = 0;
    [[noreturn]] void bad(const char* m) { throw Bad(std::string("MessagePack: ") + m + " at offset " + std::to_string(p)); }
    uint64_t num(int n) { if(s.size() - p < (size_t)n) bad("short input"); uint64_t v = 0; while(n--) v = v << 8 | (uint8_t)s[p++]; return v; }
    Bytes raw(size_t n) { if(s.size() - p < n) bad("short input"); Bytes r = s.substr(p, n); p += n; return r; }
    Bytes str(int t)
    {
        if(t >= 0xA0 && t <= 0xBF) return raw(t & 31);
        if(t == 0xD9) return raw(num(1)); if(t == 0xDA) return raw(num(2)); if(t == 0xDB) return raw(num(4));
        bad("string expected");
    }
    Doc scope(bool obj, size_t n)
    {
        Doc d; d.k = obj ? Obj : Arr; if(++lvl > 2000) bad("too deep");
        for(size_t i = 0; i < n; i++) { Bytes nm; if(obj) nm = str((int)num(1)); d.m.emplace_back(std::move(nm), value()); }
        lvl--; return d;
    }
    Doc value()
    {
        int t = (int)num(1);
        if(t < 0x80) return Doc::integer(t, U8);
        if(t >= 0xE0) return Doc::integer(t - 256, I8);
        if(t < 0x90) return scope(true, t & 15);
        if(t < 0xA0) return scope(false, t & 15);
        if(t < 0xC0) return Doc::str(str(t));
        switch(t) {
            case 0xC0: return Doc(); case 0xC2: return Doc::boolean(false); case 0xC3: return Doc::boolean(true);
            case 0xC4: return Doc::bin(raw(num(1))); case 0xC5: return Doc::bin(raw(num(2))); case 0xC6: return Doc::bin(raw(num(4)));
            case 0xCA: { uint32_t u = (uint32_t)num(4); float f; memcpy(&f, &u, 4); return Doc::flt(f, F32); }
            case 0xCB: { uint64_t u = num(8); double f; memcpy(&f, &u, 8); return Doc::flt(f, F64); }
            case 0xCC: return Doc::integer(num(1), U8); case 0xCD: return Doc::integer(num(2), U16); case 0xCE: return Doc::integer(num(4), U32); case 0xCF: return Doc::integer((__int128)num(8), U64);
            case 0xD0: return Doc::integer((int8_t)num(1), I8); case 0xD1: return Doc::integer((int16_t)num(2), I16); case 0xD2: return Doc::integer((int32_t)num(4), I32); case 0xD3: return Doc::integer((int64_t)num(8), I64);
            case 0xD9: case 0xDA: case 0xDB: return Doc::str(str(t));
            case 0xDC: return scope(false, num(2)); case 0xDD: return scope(false, num(4)); case 0xDE: return scope(true, num(2)); case 0xDF: return scope(true, num(4));
        }
        bad("unsupported or reserved prefix");
    }
};
}
Bytes msgpack_write(Case* c, const Doc& d) { Bytes o; mp(c, o, d); return o; }
Doc msgpack_parse(const Bytes& s, bool whole) { MP p { s }; Doc d = p.value(); if(whole && p.p != s.size()) p.bad("bytes left over"); return d; }

// ---------------------------------------------------------------- Srl
// flag byte: bit0 number, bit1 named, bit2 name by index
//  number:     bit3 negative, bit4 fp32, bit5 fp64, bit6 true, bit7 false
//  non-number: bit3 null, bit4 binary, bit5 string, bit6 object, bit7 array; 0 = end of scope
namespace {
void varint(Bytes& o, uint64_t v) { while(v >= 128) { o += (char)(v | 128); v >>= 7; } o += (char)v; }
struct SW {
    Bytes o; std::map<Bytes, size_t> idx;
    void head(uint8_t f, const Bytes& name, bool in_obj)
    {
        if(!in_obj || name.empty()) { o += (char)f; return; }
        auto it = idx.find(name);
        if(it != idx.end()) { o += (char)(f | 2 | 4); varint(o, it->second); }
        else { idx.emplace(name, idx.size()); o += (char)(f | 2); varint(o, name.size()); o += name; }
    }
    void put(const Doc& d, const Bytes& name, bool in_obj)
    {
        switch(d.k) {
            case Null: head(8, name, in_obj); break;
            case Bool: head(1 | (d.b ? 64 : 128), name, in_obj); break;
            case Int:  head(1 | (d.i < 0 ? 8 : 0), name, in_obj); varint(o, (uint64_t)(d.i < 0 ? -d.i : d.i)); break;
            case Flt: {
                float f = (float)d.f;
                if(d.ct == F32 || (double)f == d.f) { head(1 | 16, name, in_obj); o.append((char*)&f, 4); }
                else { head(1 | 32, name, in_obj); o.append((char*)&d.f, 8); }
                break;
            }
            case Str: head(32, name, in_obj); varint(o, d.s.size()); o += d.s; break;
            case Bin: head(16, name, in_obj); varint(o, d.s.size()); o += d.s; break;
            case Obj: case Arr:
                head(d.k == Obj ? 64 : 128, name, in_obj);
                for(auto& x : d.m) put(x.second, x.first, d.k == Obj);
                o += (char)0;
        }
    }
};
struct SP {
    const Bytes& s; size_t p = 0; std::vector<Bytes> names; int lvl = 0; bool once = true;
    [[noreturn]] void bad(const char* m) { throw Bad(std::string("Srl: ") + m + " at offset " + std::to_string(p)); }
    uint8_t byte() { if(p >= s.size()) bad("short input"); return (uint8_t)s[p++]; }
    uint64_t vi() { uint64_t v = 0; int sh = 0; for(;;) { uint8_t b = byte(); if(sh > 63) bad("integer too long"); v |= (uint64_t)(b & 127) << sh; sh += 7; if(!(b & 128)) return v; } }
    Bytes raw(size_t n) { if(s.size() - p < n) bad("short input"); Bytes r = s.substr(p, n); p += n; return r; }
    bool item(Bytes& name, Doc& d, bool in_obj)
    {
        uint8_t f = byte(); name.clear();
        if(f == 0) return false;
        if(f & 2) {
            if(!in_obj) bad("name outside of an object");
            if(f & 4) { auto i = vi(); if(i >= names.size()) bad("name index"); name = names[i]; }
            else { name = raw(vi()); if(std::find(names.begin(), names.end(), name) != names.end()) once = false; names.push_back(name); }
        } else if(f & 4) bad("index without name");
        if(f & 1) {
            int kinds = !!(f & 16) + !!(f & 32) + !!(f & 64) + !!(f & 128); if(kinds > 1 || (kinds && (f & 8))) bad("flags");
            if(f & 16) { float x; Bytes r = raw(4); memcpy(&x, r.data(), 4); d = Doc::flt(x, F32); }
            else if(f & 32) { double x; Bytes r = raw(8); memcpy(&x, r.data(), 8); d = Doc::flt(x, F64); }
            else if(f & 64) d = Doc::boolean(true); else if(f & 128) d = Doc::boolean(false);
            else { __int128 v = vi(); d = Doc::integer(f & 8 ? -v : v, f & 8 ? I64 : U64); }
            return true;
        }
        int kinds = !!(f & 8) + !!(f & 16) + !!(f & 32) + !!(f & 64) + !!(f & 128); if(kinds != 1) bad("flags");
        if(f & 8) d = Doc();
        else if(f & 16) d = Doc::bin(raw(vi())); else if(f & 32) d = Doc::str(raw(vi()));
        else {
            d = Doc(); d.k = f & 64 ? Obj : Arr; if(++lvl > 2000) bad("too deep");
            Bytes n; Doc x; while(item(n, x, d.k == Obj)) d.m.emplace_back(std::move(n), std::move(x));
            lvl--;
        }
        return true;
    }
};
}
Bytes srl_write(const Doc& d) { SW w; w.put(d, "", false); return w.o; }
Doc srl_parse(const Bytes& s, std::vector<Bytes>* names, bool* once)
{
    SP p { s }; Bytes n; Doc d; if(!p.item(n, d, false)) p.bad("scope end at top level");
    if(p.p != s.size()) p.bad("bytes left over");
    if(names) *names = p.names;
    if(once) *once = p.once;
    return d;
}

// ---------------------------------------------------------------- generators
uint32_t Gen::codepoint()
{
    switch(c.weighted({ 50, 15, 12, 8, 6, 5, 4 })) {
        case 0: return (uint32_t)c.range(' ', '~');
        case 1: { static const uint32_t sp[] = { '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', '\'', ':', ',', '{', '}', '[', ']', '*', 'u', 'n', '-', '.', 0x7F }; return sp[c.draw(21)]; }
        case 2: return (uint32_t)c.range(0x80, 0x7FF);
        case 3: { uint32_t v = (uint32_t)c.range(0x800, 0xFFFF); return v >= 0xD800 && v < 0xE000 ? 0x20AC : v; }
        case 4: return (uint32_t)c.range(0x10000, 0x10FFFF);
        case 5: return (uint32_t)c.range(1, 0x1F);
        default: { static const uint32_t ed[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0x2028, 0x41 }; return ed[c.draw(14)]; }
    }
}
size_t Gen::boundary_size()
{
    static const size_t b[] = { 0, 1, 7, 8, 9, 15, 16, 30, 31, 32, 33, 63, 64, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 1055, 1056, 1057, 2047, 2048, 2049, 4096 };
    static const size_t B[] = { 16383, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131072, 262143, 262144, 262145, 300000 };
    if(big && c.chance(1, 12)) return B[c.draw(15)];
    return b[c.draw(34)];
}
Bytes Gen::text(size_t max)
{
    size_t mode = c.weighted({ 70, 15, 8, 7 });
    Bytes o;
    if(mode == 3) {   // boundary size, mostly plain filler
        size_t n = boundary_size(); Bytes unit = c.flip() ? Bytes("a") : utf8(codepoint());
        while(o.size() + unit.size() <= n) o += unit;
        while(o.size() < n) o += 'z';
        if(n && c.flip()) { size_t at = c.draw(o.size() / unit.size() + 1) * unit.size(); o.insert(std::min(at, o.size()), utf8(codepoint())); }
        return o;
    }
    size_t n = mode == 0 ? c.size(12) : mode == 1 ? c.size(max) : c.draw(9);
    if(mode == 2) { while(n--) o += (char)c.range('a', 'z'); return o; }
    while(n--) o += utf8(codepoint());
    return o;
}
Bytes Gen::ascii(size_t max) { Bytes o; size_t n = c.size(max); while(n--) o += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_ -"[c.draw(45)]; return o; }
Bytes Gen::blob(size_t max)
{
    size_t n = c.chance(1, 10) ? boundary_size() : c.size(max); Bytes o(n, 0);
    if(n > 16) { uint64_t s = c.draw64(); for(auto& x : o) x = (char)pbt::splitmix(s); }
    else for(auto& x : o) x = (char)c.draw(256);
    return o;
}
Bytes Gen::name()
{
    Bytes n;
    switch(c.weighted({ 40, 20, 10, 8, 6, 5, 5, 3, 3 })) {
        case 0: n = Bytes(1, (char)c.range('a', 'h')); break;
        case 1: if(used.size() && dup_names) n = used[c.draw(used.size())]; else n = "n" + std::to_string(used.size()); break;
        case 2: n = "f" + std::to_string(c.draw(300)); break;
        case 3: { size_t k = c.draw(12); n = ascii(12); if(k == 0) n = "field with spaces"; break; }
        case 4: n = collide[c.draw(4)]; break;
        case 5: n = names_nasty ? text(30) : ascii(30); break;
        case 6: { static const char* k[] = { "key", "value", "first", "second", "srl_type_id", "srl_shared_key", "srl_shared_value", "" }; n = k[c.draw(8)]; break; }
        case 7: { size_t z = boundary_size(); n = Bytes(z, 'x'); if(z > 3) n[z / 2] = (char)c.range('a', 'z'); break; }
        default: n = names_nasty ? utf8(codepoint()) : Bytes("q"); break;
    }
    if(!dup_names) { while(std::find(used.begin(), used.end(), n) != used.end()) n += "~" + std::to_string(used.size()); }
    if(used.size() < 400) used.push_back(n);
    return n;
}
__int128 Gen::integer_for(CT t)
{
    static const int bits[] = { 8, 8, 16, 16, 32, 32, 64, 64 };
    bool sg = t % 2 == 0; int w = bits[t];
    __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1, v;
    switch(c.weighted({ 30, 40, 15, 15 })) {
        case 0: v = (int64_t)c.draw(20) - (sg ? (int64_t)c.draw(40) : 0); break;
        case 1: { v = (__int128)1 << c.draw(w + 1); v += (int64_t)c.draw(5) - 2; if(sg && c.flip()) v = -v; break; }      // near powers of two
        case 2: v = c.flip() ? hi - (int64_t)c.draw(3) : lo + (int64_t)c.draw(3); break;
        default: v = (__int128)(int64_t)c.draw64(); if(!sg) v = (unsigned __int128)(uint64_t)v; v >>= c.draw(w);
    }
    if(v < lo) v = lo + (lo - v) % 7; if(v > hi) v = hi - (v - hi) % 7;
    return v < lo ? lo : v > hi ? hi : v;
}
double Gen::dbl()
{
    double v;
    switch(c.weighted({ 25, 20, 20, 10, 15, 10 })) {
        case 0: v = (double)(int64_t)(c.draw(2001)) / (double)(1 + c.draw(16)); break;
        case 1: { uint64_t u = c.draw64(); memcpy(&v, &u, 8); break; }
        case 2: { static const double k[] = { 0.0, 1.0, 0.1, 0.5, 1e22, 1e23, 1e21, 1e-5, 1e-7, 5e-324, 2.2250738585072014e-308, 2.2250738585072011e-308, 1.7976931348623157e308, 3.4028234663852886e38, 3.4028235677973366e38, 1.401298464324817e-45, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 9223372036854775807.0, 9223372036854774784.0, 18446744073709551615.0, 18446744073709549568.0, 4294967295.0, 4294967296.0, 2147483648.0, 1e15, 1e16, 1e17, 123456789.125, 0.3, 100.0, 1.5, 1e100, 1e-100 }; v = k[c.draw(35)]; break; }
        case 3: v = (double)(int64_t)c.draw64() / (double)(1ull << c.draw(63)); break;
        case 4: { v = std::ldexp(1.0, (int)c.range(-1074, 1023)); if(c.flip()) v = std::nextafter(v, c.flip() ? 0 : INFINITY); break; }
        default: { float f = flt(); v = f; }
    }
    if(c.chance(1, 3)) v = -v;
    if(nonfinite && c.chance(1, 12)) v = c.pickl<double>({ INFINITY, -INFINITY, NAN });
    if(!nonfinite && !std::isfinite(v)) v = 1.25;
    if(!negzero && v == 0) v = 0;
    return v;
}
float Gen::flt()
{
    uint32_t u = (uint32_t)c.draw64(); float f;
    switch(c.weighted({ 40, 40, 20 })) {
        case 0: f = (float)((int64_t)c.draw(1000) - 500) / 8.0f; break;
        case 1: memcpy(&f, &u, 4); break;
        default: { static const float k[] = { 0.1f, 3.4028235e38f, 1.17549435e-38f, 1e-45f, 16777216.0f, 0.3f, 1.0f, 0.0f }; f = k[c.draw(8)]; }
    }
    if(nonfinite && c.chance(1, 12)) f = c.pickl<float>({ INFINITY, -INFINITY, NAN });
    if(!nonfinite && !std::isfinite(f)) f = 2.5f;
    if(!negzero && f == 0) f = 0;
    return f;
}
Doc Gen::scalar()
{
    switch(c.weighted({ 30, 25, 15, 5, 8, binary ? 10u : 0u })) {
        case 0: { CT t = (CT)c.draw(8); return Doc::integer(integer_for(t), t); }
        case 1: return Doc::str(text());
        case 2: if(c.chance(1, 3)) return Doc::flt(flt(), F32); return Doc::flt(dbl(), F64);
        case 3: return Doc();
        case 4: return Doc::boolean(c.flip());
        default: return Doc::bin(blob());
    }
}
Doc Gen::tree(size_t depth, size_t budget)
{
    Doc d; d.k = c.chance(1, 3) ? Arr : Obj;
    size_t n = depth == 0 ? c.size(budget) : c.size(std::min<size_t>(budget, 12));
    for(size_t i = 0; i < n; i++) {
        Bytes nm; if(d.k == Obj) nm = name();
        if(depth + 1 < max_depth && c.chance(1, 4)) d.m.emplace_back(nm, tree(depth + 1, budget / 2));
        else d.m.emplace_back(nm, scalar());
    }
    return d;
}
Doc Gen::special()
{
    Doc d = Doc::obj();
    switch(c.draw(5)) {
        case 0: { // many distinct names, then repeats (name index beyond one and two varint bytes)
            size_t n = c.pickl<size_t>({ 126, 127, 128, 129, 130, 200, 300, 1000 }); if(big && c.chance(1, 10)) n = 16390;
            for(size_t i = 0; i < n; i++) d.m.emplace_back("k" + std::to_string(i), Doc::integer((int64_t)i, I32));
            Doc e = Doc::obj(); for(size_t i = 0; i < 12; i++) { size_t k = i < 6 ? n - 1 - i : c.draw(n); e.m.emplace_back("k" + std::to_string(k), Doc::boolean(i & 1)); }
            d.m.emplace_back("again", e); return d; }
        case 1: { // wide array of scalars
            size_t n = c.pickl<size_t>({ 15, 16, 17, 255, 256, 1000, 3000 }); if(big && c.chance(1, 15)) n = c.pickl<size_t>({ 65535, 65536, 65537 });
            Doc a = Doc::arr(); uint64_t s = c.draw64(); for(size_t i = 0; i < n; i++) a.m.emplace_back("", Doc::integer((int32_t)(pbt::splitmix(s) >> (s & 31)) , I32));
            if(c.flip()) return a; d.m.emplace_back("w", a); return d; }
        case 2: { // deep chain
            size_t n = c.pickl<size_t>({ 2, 10, 50, 100, 127, 128 });
            Doc x = scalar(); for(size_t i = 0; i < n; i++) { Doc y = c.flip() ? Doc::obj() : Doc::arr(); if(c.chance(1, 4)) y.m.emplace_back(y.k == Obj ? "v" : "", scalar()); y.m.emplace_back(y.k == Obj ? name() : Bytes(), x); x = y; }
            return x; }
        case 3: { // many rows of the same struct
            size_t n = 1 + c.draw(60); Doc a = Doc::arr();
            for(size_t i = 0; i < n; i++) { Doc r = Doc::obj(); r.m.emplace_back("id", Doc::integer((int64_t)i)); r.m.emplace_back("text", Doc::str(text())); r.m.emplace_back("w", Doc::flt(dbl())); Doc sub = Doc::arr(); if(c.flip()) sub.m.emplace_back("", scalar()); r.m.emplace_back("sub", sub); a.m.emplace_back("", r); }
            d.m.emplace_back("rows", a); return d; }
        default: { // long strings back to back
            size_t n = 1 + c.draw(8); for(size_t i = 0; i < n; i++) { size_t z = boundary_size(); d.m.emplace_back(name(), c.flip() ? Doc::str(Bytes(z, (char)c.range('a', 'z'))) : scalar()); }
            return d; }
    }
}
}
