#include "mutate.hpp"
using namespace doc;
namespace br {
static const char* const json_tokens[] = { "{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\ud800", "\\udc00", "\\u0000", "/*", "*/", "//", "\n", "null", "true", "false",
    "-", "1e999", "-1e-999", "0.", ".5", "123456789012345678901234567890", "1e", "nan", "inf", "0x10", "\"\":", "\"a\":{", "[[[[[[[[", "]]]]", "}}}}", "\xFF", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80" };
static Bytes lump(Case& c, Fmt f)
{
    Bytes r;
    if(text(f)) return json_tokens[c.draw(sizeof json_tokens / sizeof *json_tokens)];
    if(f == MP) {
        static const uint8_t pre[] = { 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA, 0xCB, 0xCC, 0xCD, 0xCE, 0xCF,
                                       0xD0, 0xD1, 0xD2, 0xD3, 0xD4, 0xD8, 0xD9, 0xDA, 0xDB, 0xDC, 0xDD, 0xDE, 0xDF, 0xE0, 0x00, 0x7F, 0xFF };
        r += (char)pre[c.draw(sizeof pre)];
        size_t n = c.pickl<size_t>({ 0, 1, 2, 4, 8 });
        for(size_t i = 0; i < n; i++) r += (char)c.pickl<int>({ 0, 0xFF, 0x7F, 0x80, 1 });
        return r;
    }
    size_t n = 1 + c.draw(11);      // varints: long, overlong, endless
    for(size_t i = 0; i + 1 < n; i++) r += (char)(0x80 | c.pickl<int>({ 0, 0x7F, 1, 0x10 }));
    r += (char)c.pickl<int>({ 0, 1, 0x7F, 0xFF, 0x10 });
    return r;
}
Bytes mutate(Case& c, Bytes b, Fmt f, size_t n)
{
    size_t k = 1 + c.draw(n);
    for(size_t i = 0; i < k; i++) {
        size_t at = c.draw(b.size() + 1);
        switch(c.draw(11)) {
            case 0: if(at < b.size()) b[at] ^= (char)(1 << c.draw(8)); break;
            case 1: if(at < b.size()) b[at] = (char)c.draw(256); break;
            case 2: if(at < b.size()) b.erase(at, 1 + c.draw(4)); break;
            case 3: b.insert(at, 1, (char)c.draw(256)); break;
            case 4: { auto t = lump(c, f); b.insert(at, t); break; }
            case 5: { auto t = lump(c, f); b.replace(at, std::min(t.size(), b.size() - at), t); break; }
            case 6: b.resize(at); break;
            case 7: { size_t len = c.draw(std::min<size_t>(b.size() - at, 40) + 1); auto part = b.substr(at, len); b.insert(c.draw(b.size() + 1), part); break; }
            case 8: { size_t len = c.draw(b.size() - at + 1); b.erase(at, len); break; }
            case 9: if(at < b.size()) b[at] = (char)c.pickl<int>({ 0, 0xFF, 0x7F, 0x80, 0xFE, 0x81 }); break;
            default: if(b.size() >= 2) { size_t o = c.draw(b.size()); if(at < b.size()) std::swap(b[at], b[o]); } break;
        }
    }
    return b;
}
Bytes garbage(Case& c, Fmt f)
{
    Bytes b; size_t n = c.size(200);
    switch(c.draw(3)) {
        case 0: for(size_t i = 0; i < n; i++) b += (char)c.draw(256); break;
        case 1: for(size_t i = 0; i < n / 2; i++) b += lump(c, f); break;
        default: {      // a plausible start
            b = text(f) ? (c.flip() ? "{" : "[") : f == MP ? Bytes(1, (char)(c.flip() ? 0x80 | c.draw(16) : 0x90 | c.draw(16))) : Bytes(1, (char)c.draw(32));
            for(size_t i = 0; i < n / 2; i++) b += c.flip() ? lump(c, f) : Bytes(1, (char)c.draw(256));
        }
    }
    return b;
}
Bytes wild(Case& c, Fmt f, const Doc& d, bool comments)
{
    if(f == MP) return msgpack_write(&c, d);
    if(text(f)) return json_write(c, d, JsonStyle{ c.flip(), c.flip(), false, comments && c.chance(1, 6) });
    return srl_write(d);
}
}
