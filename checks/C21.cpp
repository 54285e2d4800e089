// C21: binary payloads and their base64/hex forms are exact.
#include "bridge.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C21", "random byte strings (all short lengths, encoding boundaries, up to 300000 bytes) through base64/hex and through binary members in every format and interface, malformed texts with "
         "single defects at every position; compared with an independent codec, destination buffers exactly sized under ASan; non-trivial: at least 2 bytes, or a malformed text")

static Bytes gen_blob(Case& c) { Gen g(c); if(c.chance(1, 3)) { Bytes o(c.draw(10), 0); for(auto& x : o) x = (char)c.draw(256); return o; } return g.blob(200); }
static std::unique_ptr<uint8_t[]> exact(const Bytes& s) { std::unique_ptr<uint8_t[]> p(new uint8_t[s.size()]); memcpy(p.get(), s.data(), s.size()); return p; }

PBT_TEST(codecs, 30000, 1000000)
{
    auto b = gen_blob(c); auto p = exact(b);
    c.nontrivial(b.size() >= 2); c.note(hex(b, 100));
    auto e = Srl::Tools::bytes_to_base64(p.get(), b.size());
    CHECK(c, str(e) == base64(b), "base64 of " << hex(b, 200) << " is " << quote(str(e)));
    std::vector<uint8_t> buf(c.draw(20), 'x'); auto n = Srl::Tools::bytes_to_base64(p.get(), b.size(), buf);
    CHECK(c, n == e.size() && buf.size() >= n && Bytes((char*)buf.data(), n) == str(e), "buffer variant of bytes_to_base64 differs");
    auto ep = exact(str(e));
    CHECK(c, Srl::Tools::get_base64_decoded_size((char*)ep.get(), e.size()) == b.size(), "decoded size");
    CHECK(c, str(Srl::Tools::base64_to_bytes((char*)ep.get(), e.size())) == b, "base64 decoding does not invert encoding of " << hex(b, 200));
    // into an exactly sized, and into a shorter or longer destination
    size_t room = c.draw(3) == 0 ? c.draw(b.size() + 1) : b.size() + c.draw(3);
    std::unique_ptr<uint8_t[]> dst(new uint8_t[room]); memset(dst.get(), 0xEE, room);
    Srl::Tools::base64_to_bytes(dst.get(), room, (char*)ep.get(), e.size());
    for(size_t i = 0; i < std::min(room, b.size()); i++) CHECK(c, dst[i] == (uint8_t)b[i], "byte " << i << " of a destination of " << room);
    auto h = Srl::Tools::bytes_to_hex(p.get(), b.size());
    Bytes want; for(unsigned char x : b) { want += "0123456789ABCDEF"[x >> 4]; want += "0123456789ABCDEF"[x & 15]; }
    Bytes got = str(h); for(auto& x : got) x = (char)toupper((unsigned char)x);
    CHECK(c, got == want, "hex of " << hex(b, 100));
    Bytes mix = want; for(auto& x : mix) if(c.flip()) x = (char)tolower((unsigned char)x);
    auto mp = exact(mix);
    CHECK(c, str(Srl::Tools::hex_to_bytes(mp.get(), mix.size())) == b, "hex decoding of " << quote(mix));
    std::unique_ptr<uint8_t[]> hd(new uint8_t[b.size()]); Srl::Tools::hex_to_bytes(hd.get(), b.size(), mp.get(), mix.size());
    CHECK(c, !memcmp(hd.get(), b.data(), b.size()), "hex decoding into a buffer");
    if(b.size()) CHECK(c, !thrown([&] { std::unique_ptr<uint8_t[]> small(new uint8_t[b.size() - 1]); Srl::Tools::hex_to_bytes(small.get(), b.size() - 1, mp.get(), mix.size()); }).empty(), "too small destination accepted");
}

PBT_TEST(malformed_text, 30000, 1000000)
{
    auto b = gen_blob(c); if(b.empty()) b = "x"; if(b.size() > 400) b.resize(400);
    bool hx = c.chance(1, 3);
    Bytes t; if(hx) { for(unsigned char x : b) { t += "0123456789abcdef"[x >> 4]; t += "0123456789ABCDEF"[x & 15]; } } else t = base64(b);
    Bytes orig = t; size_t at = c.draw(t.size());
    switch(c.draw(hx ? 2 : 5)) {
        case 0: t[at] = (char)c.draw(256); break;                                   // one arbitrary character
        case 1: t.erase(at, 1 + c.draw(3)); break;                                  // missing characters
        case 2: t.insert(at, 1, (char)c.draw(256)); if(c.flip()) t.erase(c.draw(t.size()), 1); break;
        case 3: { size_t k = 1 + c.draw(4); t.insert(c.flip() ? t.size() : at, k, '='); break; }
        default: { static const char ch[] = "AB+/=-_ \n.=="; size_t n = 1 + c.draw(12); t.clear(); for(size_t i = 0; i < n; i++) t += ch[c.draw(12)]; }
    }
    // independent judgement
    bool valid; Bytes bytes;
    if(hx) { valid = t.size() % 2 == 0; for(unsigned char x : t) if(!isxdigit(x)) valid = false; if(valid) for(size_t i = 0; i < t.size(); i += 2) bytes += (char)strtol(t.substr(i, 2).c_str(), nullptr, 16); }
    else { auto d = base64_decode(t); valid = (bool)d; if(d) bytes = *d; }
    bool loose = false;                                                             // wrong only in unused trailing bits: either way
    if(!hx && !valid && t.size() % 4 == 0 && t.size()) { Bytes u = t; size_t e = u.find('='); if(e != Bytes::npos && e >= u.size() - 2 && e > 0) for(char x : Bytes("AQgwEIMUYcgkosw048")) { u[e - 1] = x; if(base64_decode(u)) loose = true; } bool alpha = true; for(unsigned char x : t) if(!isalnum(x) && x != '+' && x != '/' && x != '=') alpha = false; loose &= alpha; }
    c.nontrivial(!valid); c.label(valid ? "still valid" : loose ? "loose" : "malformed"); c.note(hx ? "hex " : "base64 ", quote(t, 100));
    auto p = exact(t);
    std::vector<uint8_t> r; auto m = thrown([&] { r = hx ? Srl::Tools::hex_to_bytes(p.get(), t.size()) : Srl::Tools::base64_to_bytes((char*)p.get(), t.size()); });
    if(valid) CHECK(c, m.empty() && str(r) == bytes, "valid text " << quote(t) << " gives " << hex(str(r)) << " " << m);
    else if(!loose) CHECK(c, !m.empty(), "malformed text " << quote(t) << " accepted as " << hex(str(r)));
    if(hx) return;
    // as payload of a binary member
    Srl::Tree tr; bool utf; from_utf8(t, &utf); if(!utf) return;
    tr.root().insert("b", t); Fmt f = pick_fmt(c); auto doc = write(tr, f);
    std::vector<uint8_t> out; Srl::VecWrap<uint8_t> w(out);
    auto m2 = thrown([&] { with(f, [&](auto& ps) { Srl::Tree u; u.unpack(vec(doc), ps, "b", w); }); });
    if(valid) CHECK(c, m2.empty() && str(out) == bytes, "payload " << quote(t) << " restored as " << hex(str(out)) << " " << m2);
    else if(!loose) CHECK(c, !m2.empty(), "malformed payload " << quote(t) << " accepted");
}

namespace {
template<class T> struct VecObj { std::vector<T> v; void srl_resolve(Srl::Context& ctx) { ctx("b", Srl::VecWrap<T>(v)); } };
struct BitObj {
    Bytes data; std::unique_ptr<uint8_t[]> got; size_t size = 0, calls = 0;
    void srl_store(Srl::StoreContext& ctx) const { ctx("b", Srl::BitWrap((const uint8_t*)data.data(), data.size())); }
    void srl_restore(Srl::RestoreContext& ctx)
    {
        Srl::BitWrap w([this](size_t n) { calls++; size = n; got.reset(new uint8_t[n]); return got.get(); }); ctx("b", w);
    }
};
struct BytesObj { Srl::Bytes b; void srl_resolve(Srl::Context& ctx) { ctx("b", b); } };
template<class O> void roundtrip(Case& c, Fmt f, const O& in, O& out, int how)
{
    with(f, [&](auto& p) {
        Srl::Tree t;
        if(how == 0) { auto b = t.store(in, p); Srl::Tree u; source(pick_via(c), str(b), pick_chunk(c), [&](auto& s) { u.restore(out, s, p); }); }
        else if(how == 1) { t.load_object(in); auto b = t.to_source(p); Srl::Tree u; source(pick_via(c), str(b), pick_chunk(c), [&](auto& s) { u.load_source(s, p); }); u.root().paste(out); }
        else { t.load_object(in); t.root().paste(out); }
        return 0;
    });
}
}
PBT_TEST(members, 12000, 300000)
{
    auto b = gen_blob(c); Fmt f = pick_fmt(c); int how = (int)c.draw(3);
    c.nontrivial(b.size() >= 2); c.note(name(f), " way ", how, " ", b.size(), " bytes ", hex(b, 60));
    switch(c.draw(4)) {
        case 0: { BitObj a, o; a.data = b; roundtrip(c, f, a, o, how);
            CHECK(c, o.calls == 1, "allocator called " << o.calls << " times"); CHECK(c, o.size == b.size(), "asked for " << o.size << " instead of " << b.size() << " bytes");
            CHECK(c, !memcmp(o.got.get(), b.data(), b.size()), "BitWrap content differs"); break; }
        case 1: { BytesObj a { Srl::Bytes(vec(b)) }, o { Srl::Bytes(std::vector<uint8_t>(c.draw(20), 7)) }; roundtrip(c, f, a, o, how); CHECK(c, str(std::move(o.b).extract()) == b, "Bytes differ"); break; }
        case 2: { b.resize(b.size() / 8 * 8); VecObj<uint64_t> a, o; a.v.resize(b.size() / 8); memcpy(a.v.data(), b.data(), b.size()); o.v.resize(c.draw(5), 9); roundtrip(c, f, a, o, how); CHECK(c, a.v == o.v, "VecWrap<uint64> differs"); break; }
        default: { b.resize(b.size() / 4 * 4); VecObj<float> a, o; a.v.resize(b.size() / 4); memcpy(a.v.data(), b.data(), b.size()); roundtrip(c, f, a, o, how);
            CHECK(c, a.v.size() == o.v.size() && !memcmp(a.v.data(), o.v.data(), b.size()), "VecWrap<float> differs"); }
    }
}
template<class T> static void fits(Case& c, Fmt f, int how, const Bytes& b)
{
    BytesObj a { Srl::Bytes(vec(b)) }; VecObj<T> o; o.v.resize(c.draw(4), T(3));
    auto m = thrown([&] { with(f, [&](auto& p) {
        Srl::Tree t;
        if(how == 0) { auto x = t.store(a, p); Srl::Tree u; source(pick_via(c), str(x), pick_chunk(c), [&](auto& s) { u.restore(o, s, p); }); }
        else { t.load_object(a); auto x = t.to_source(p); Srl::Tree u; u.load_source(x, p); u.root().paste(o); }
        return 0; }); });
    bool ok = b.size() % sizeof(T) == 0;
    CHECK(c, m.empty() == ok, b.size() << " bytes into elements of " << sizeof(T) << (ok ? " refused: " + m : std::string(" accepted")));
    if(ok) CHECK(c, o.v.size() * sizeof(T) == b.size() && !memcmp(o.v.data(), b.data(), b.size()), "content differs");
}
PBT_TEST(element_size, 8000, 200000)
{
    auto b = gen_blob(c); Fmt f = pick_fmt(c); int how = (int)c.draw(2);
    c.nontrivial(b.size() % 8 != 0); c.note(name(f), " ", b.size(), " bytes");
    switch(c.draw(4)) { case 0: fits<uint64_t>(c, f, how, b); break; case 1: fits<int32_t>(c, f, how, b); break; case 2: fits<char16_t>(c, f, how, b); break; default: fits<double>(c, f, how, b); }
}
// a null source, a missing allocator, an allocator giving nothing
PBT_TEST(refusals, 800, 8000)
{
    Fmt f = pick_fmt(c); auto b = gen_blob(c); if(b.empty()) b = "z";
    c.nontrivial(); c.note(name(f), " ", b.size());
    Srl::Tree t; CHECK(c, !thrown([&] { t.root().insert("b", Srl::BitWrap(nullptr, b.size())); }).empty(), "null data accepted");
    BytesObj a { Srl::Bytes(vec(b)) };
    with(f, [&](auto& p) {
        auto x = Srl::Tree().store(a, p);
        Srl::BitWrap none((const uint8_t*)b.data(), b.size());
        CHECK(c, !thrown([&] { Srl::Tree u; u.unpack(x, p, "b", none); }).empty(), "BitWrap without allocator restored");
        size_t asked = 0; Srl::BitWrap null([&](size_t n) { asked = n; return nullptr; });
        CHECK(c, !thrown([&] { Srl::Tree u; u.unpack(x, p, "b", null); }).empty() && asked == b.size(), "allocator returning null");
        return 0;
    });
}
