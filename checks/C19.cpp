// C19: text keeps its characters across encodings.
#include "names.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C19", "random Unicode text (all planes, lengths across buffer boundaries) and ill-formed byte/code-unit sequences x source and target encoding x string type (basic_string of four character types, arrays, pointers, "
         "characters, Srl::String) x names/values x formats x preallocated buffers with offsets; oracle: an independent UTF-8/16/32 codec; non-trivial: non-ASCII text converted between two encodings, or ill-formed text")

namespace {
using CP = std::vector<uint32_t>;
CP gen(Case& c, Gen& g, size_t max)
{
    CP r; size_t n = c.chance(1, 12) ? c.pickl<size_t>({ 63, 64, 127, 128, 255, 256, 1023, 1024, 4096 }) + c.draw(3) - 1 : c.size(max);
    size_t mode = c.draw(4); uint32_t one = g.codepoint();
    for(size_t i = 0; i < n; i++) r.push_back(mode == 0 ? one : n > 300 && i > 20 ? r[i % 20] : mode == 1 ? 'a' + c.draw(26) : g.codepoint());
    return r;
}
Bytes to8(const CP& v) { Bytes r; for(auto x : v) r += utf8(x); return r; }
std::wstring tow(const CP& v) { return std::wstring(v.begin(), v.end()); }
template<class T> std::basic_string<T> as(const CP& v);
template<> std::string as<char>(const CP& v) { return to8(v); }
template<> std::u16string as<char16_t>(const CP& v) { return to16(v); }
template<> std::u32string as<char32_t>(const CP& v) { return to32(v); }
template<> std::wstring as<wchar_t>(const CP& v) { return tow(v); }
template<class T> Bytes raw(const std::basic_string<T>& s) { return Bytes((const char*)s.data(), s.size() * sizeof(T)); }
Bytes bytes(const CP& v, Srl::Encoding e) { return e == Srl::Encoding::UTF8 ? to8(v) : e == Srl::Encoding::UTF16 ? raw(to16(v)) : raw(to32(v)); }
Srl::Encoding encs[] = { Srl::Encoding::UTF8, Srl::Encoding::UTF16, Srl::Encoding::UTF32 };
bool wide(const CP& v) { for(auto x : v) if(x > 127) return true; return false; }
// String over an exactly sized copy
struct Held { std::unique_ptr<uint8_t[]> p; Srl::String s; Held(const Bytes& b, Srl::Encoding e) : p(new uint8_t[b.size()]) { memcpy(p.get(), b.data(), b.size()); s = Srl::String(p.get(), b.size(), e); } };
template<class F> void chars(F&& f) { f(char()); f(char16_t()); f(char32_t()); f(wchar_t()); }
std::string ename(Srl::Encoding e) { return e == Srl::Encoding::UTF8 ? "UTF-8" : e == Srl::Encoding::UTF16 ? "UTF-16" : "UTF-32"; }
}

PBT_TEST(conversion, 200000, 10000000)
{
    Gen g(c); auto t = gen(c, g, 200); auto from = encs[c.draw(3)], to = encs[c.draw(3)];
    c.nontrivial(wide(t) && from != to); c.note(ename(from), " -> ", ename(to), " ", t.size(), " characters ", quote(to8(t)));
    Held h(bytes(t, from), from); Bytes want = bytes(t, to);
    auto v = Srl::Tools::conv_charset(to, h.s, c.flip());
    CHECK(c, str(v) == want, "conv_charset gives " << hex(str(v)) << " expected " << hex(want));
    // into a buffer with an offset, the rest of which is to stay
    size_t idx = c.flip() ? 0 : c.draw(40), size = idx + (c.flip() ? c.draw(20) : c.draw(2 * want.size() + 10)); if(c.chance(1, 10)) { size = 0; idx = 0; }
    std::vector<uint8_t> buf(size); for(size_t i = 0; i < size; i++) buf[i] = (uint8_t)(i * 31 + 5);
    size_t n = Srl::Tools::conv_charset(to, h.s, buf, c.flip(), idx);
    CHECK(c, n == want.size() && (n == 0 || (buf.size() >= idx + n && !memcmp(&buf[idx], want.data(), n))), "conversion at index " << idx << " into a buffer of " << size << ": " << n << " bytes, expected " << want.size());
    for(size_t i = 0; i < idx && i < buf.size() && i < size; i++) CHECK(c, buf[i] == (uint8_t)(i * 31 + 5), "conversion at index " << idx << " changed byte " << i << " before it");
    chars([&](auto z) { using T = decltype(z); auto s = h.s.unwrap<T>(); CHECK(c, s == as<T>(t), "unwrap to " << sizeof(T) << " byte characters gives " << hex(raw(s)) << " for " << hex(raw(as<T>(t)))); });
    // equality
    Held o(bytes(t, to), to); CHECK(c, h.s == o.s && o.s == h.s, "the same text in " << ename(from) << " and " << ename(to) << " isn't equal");
    CP t2 = t; if(t2.empty() || c.chance(1, 4)) t2.push_back(g.codepoint()); else { size_t i = c.draw(t2.size()); if(c.flip()) t2.erase(t2.begin() + i); else { auto x = g.codepoint(); if(x == t2[i]) x = x == 'a' ? 'b' : 'a'; t2[i] = x; } }
    if(t2 == t) t2.push_back('z');                                   // erasing one of equal neighbours may only shorten; it always differs in length then
    Held d(bytes(t2, to), to); CHECK(c, !(h.s == d.s) && !(d.s == h.s), "different texts are equal: " << hex(to8(t)) << " " << hex(to8(t2)));
}

namespace {
// one text through a tree and a format, given as `put`, read as every type
template<class Put> void through(Case& c, const CP& t, const CP& nm, Put&& put)
{
    Bytes s = to8(t), n8 = to8(nm);
    Srl::Tree tr; put(tr.root());
    Fmt f = pick_fmt(c); auto b = write(tr, f, c.flip());
    Doc d = decode(f, b); Doc w = Doc::obj(); w.m.emplace_back(n8, Doc::str(s)); std::string why;
    CHECK(c, equal(norm(d), w, &why), name(f) << ": " << why);
    auto read = [&](Srl::Node& r, const char* how) {
        CHECK(c, r.num_values() == 1, how << ": number of values");
        chars([&](auto z) { using T = decltype(z); auto nn = as<T>(nm);
            auto x = r.template unwrap_field<std::basic_string<T>>(Srl::String(nn)); CHECK(c, x == as<T>(t), how << ": looked up and read with " << sizeof(T) << " byte characters gives " << hex(raw(x)) << " instead of " << hex(raw(as<T>(t))));
            CHECK(c, r.has_value(nn) && r.find_values(nn).size() == 1 && r.value(nn).name().template unwrap<T>() == nn, how << ": name looked up with " << sizeof(T) << " byte characters"); });
        auto str = r.template unwrap_field<Srl::String>(Srl::String(n8)); CHECK(c, str.unwrap() == s, how << ": Srl::String");
    };
    read(tr.root(), "tree");
    Srl::Tree l; load(l, f, b, pick_via(c), pick_chunk(c)); read(l.root(), "loaded");
    // direct restore with names and values in the various encodings
    auto via = pick_via(c); auto ch = pick_chunk(c);
    chars([&](auto z) { using T = decltype(z); auto nn = as<T>(nm); std::basic_string<T> x(3, T('q')); auto e = thrown([&] { with(f, [&](auto& p) { source(via, b, ch, [&](auto& src) { Srl::Tree u; u.unpack(src, p, nn, x); }); }); });
        if(nm.empty()) return; CHECK(c, e.empty() && x == as<T>(t), "unpack with " << sizeof(T) << " byte characters: " << e << " " << hex(raw(x))); });
}
struct Ctx { std::function<void(Srl::StoreContext&)> f; void srl_store(Srl::StoreContext& c) const { f(c); } void srl_restore(Srl::RestoreContext&) { } };
}
PBT_TEST(values_and_names, 40000, 2000000)
{
    Gen g(c); auto t = gen(c, g, 60), nm = gen(c, g, 12); if(nm.empty()) nm.push_back('n'); if(nm.size() > 300) nm.resize(300);
    size_t tk = c.draw(4), nk = c.draw(4); c.nontrivial((wide(t) && tk) || (wide(nm) && nk)); c.note("name ", quote(to8(nm)), " text ", quote(to8(t)), " types ", nk, " ", tk);
    auto with_type = [&](size_t k, const CP& v, auto&& fn) { switch(k) { case 0: fn(as<char>(v)); break; case 1: fn(as<char16_t>(v)); break; case 2: fn(as<char32_t>(v)); break; default: fn(as<wchar_t>(v)); } };
    bool direct = c.flip();
    through(c, t, nm, [&](Srl::Node& r) { with_type(nk, nm, [&](const auto& n) { with_type(tk, t, [&](const auto& v) {
        size_t how = c.draw(3);
        if(how == 0) r.insert(n, v); else if(how == 1) r.insert(Srl::String(n), Srl::String(v)); else r.insert(n, Srl::Value({ (const uint8_t*)v.data(), v.size() * sizeof(v[0]) }, Srl::String(v).encoding()));
    }); }); });
    if(direct) { // written directly, without a tree
        Fmt f = pick_fmt(c); Srl::Tree tr; Bytes b;
        with_type(nk, nm, [&](const auto& n) { with_type(tk, t, [&](const auto& v) { Ctx o{ [&](Srl::StoreContext& x) { x(n, v); x("end", 1); x(n, 2); } }; b = with(f, [&](auto& p) { return str(tr.store(o, p)); }); }); });
        Doc w = Doc::obj(); w.m.emplace_back(to8(nm), Doc::str(to8(t))); w.m.emplace_back("end", Doc::integer(1)); w.m.emplace_back(to8(nm), Doc::integer(2)); std::string why;
        CHECK(c, equal(decode(f, b), w, &why), "direct store as " << name(f) << ": " << why);
    }
}

namespace {
template<class T, size_t N> void arrays(Case& c, const CP& t)
{
    auto s = as<T>(t); bool fits = s.size() <= N - 1; bool nul = s.find(T(0)) != s.npos;
    // reading into an array: exactly the text, terminated, nothing beyond
    struct { T before[2]; T a[N]; T after[2]; } x; for(auto& q : x.before) q = T('B'); for(auto& q : x.a) q = T('x'); for(auto& q : x.after) q = T('A');
    Srl::Tree tr; size_t how = c.draw(3);
    if(how == 0) tr.root().insert("s", to8(t)); else if(how == 1) tr.root().insert("s", to16(t)); else tr.root().insert("s", to32(t));
    Fmt f = pick_fmt(c); bool direct = c.flip(); std::string e; Bytes b = write(tr, f);
    if(direct) e = thrown([&] { with(f, [&](auto& p) { source(Pointer, b, 1, [&](auto& src) { Srl::Tree u; u.unpack(src, p, "s", x.a); }); }); });
    else e = thrown([&] { tr.root().paste_field("s", x.a); });
    CHECK(c, e.empty() == fits, "text of " << s.size() << " units into an array of " << N << ": " << (fits ? e : "isn't refused"));
    for(auto q : x.before) CHECK(c, q == T('B'), "memory before the array changed"); for(auto q : x.after) CHECK(c, q == T('A'), "memory behind the array changed");
    if(!fits) { // an array filled to its end, without terminator: nothing beyond is read
        std::unique_ptr<T[]> heap(new T[N]); memcpy(heap.get(), s.data(), sizeof(T) * N); auto& ar = *reinterpret_cast<T(*)[N]>(heap.get());
        Bytes v; auto e1 = thrown([&] { Srl::Tree w; w.root().insert("arr", ar); v = w.root().template unwrap_field<std::string>("arr"); write(w, f); }); auto e2 = thrown([&] { Srl::Tree w; w.root().insert(ar, 1); });
        bool ascii = true; for(auto x : t) ascii &= x && x < 128;
        if(ascii) CHECK(c, e1.empty() && e2.empty() && (v == to8(CP(t.begin(), t.begin() + N)) || v == to8(CP(t.begin(), t.begin() + N - 1))), "array of " << N << " without terminator is stored as " << quote(v) << " " << e1 << e2);
        return;
    }
    CHECK(c, std::basic_string<T>(x.a, s.size()) == s && x.a[s.size()] == T(0), "array holds " << hex(Bytes((const char*)x.a, sizeof x.a)) << " instead of the terminated text " << hex(raw(s)));
    if(nul) return;
    // writing an array: the text up to the terminator; a full array without terminator isn't read beyond its end
    std::unique_ptr<T[]> heap(new T[N]); for(size_t i = 0; i < N; i++) heap[i] = T('y'); for(size_t i = 0; i <= s.size() && i < N; i++) heap[i] = s.c_str()[i];
    auto& ar = *reinterpret_cast<T(*)[N]>(heap.get());
    Srl::Tree w; w.root().insert("arr", ar); Bytes b2 = write(w, f); Doc d = decode(f, b2); Doc want = Doc::obj(); want.m.emplace_back("arr", Doc::str(to8(t))); std::string why;
    CHECK(c, equal(norm(d), want, &why), "array of " << N << ": " << why);
    const T* ptr = heap.get(); Srl::Tree w2; w2.root().insert("arr", ptr); CHECK(c, write(w2, f) == b2, "pointer to characters is stored differently than the array");
    Srl::Tree w3; w3.root().insert("lst", { ptr, ptr }); CHECK(c, w3.root().node("lst").value(1).template unwrap<std::string>() == to8(t), "initializer list of pointers to characters");
    // as a name
    if(s.size()) { Srl::Tree w4; w4.root().insert(ar, 1); CHECK(c, w4.root().value(0).name().unwrap() == to8(t), "array as name"); CHECK(c, w4.root().template unwrap_field<int>(ar) == 1 && w4.root().has_value(ar), "array as name for look up"); }
}
}
PBT_TEST(arrays, 60000, 3000000)
{
    Gen g(c); CP t; size_t n = c.draw(12); for(size_t i = 0; i < n; i++) t.push_back(c.chance(1, 3) ? g.codepoint() : 'a' + c.draw(26));
    if(c.flip()) for(auto& x : t) if(!x) x = '0';
    c.nontrivial(wide(t)); c.note(quote(to8(t)));
    switch(c.draw(4)) {
        case 0: arrays<char, 2>(c, t); arrays<char, 9>(c, t); arrays<char, 33>(c, t); break;
        case 1: arrays<char16_t, 2>(c, t); arrays<char16_t, 7>(c, t); arrays<char16_t, 24>(c, t); break;
        case 2: arrays<char32_t, 2>(c, t); arrays<char32_t, 5>(c, t); arrays<char32_t, 13>(c, t); break;
        default: arrays<wchar_t, 3>(c, t); arrays<wchar_t, 12>(c, t);
    }
}
PBT_TEST(characters, 50000, 2000000)
{
    Gen g(c); uint32_t cp = c.flip() ? g.codepoint() : c.draw(128); c.nontrivial(cp > 127); c.note("U+", cp);
    Srl::Tree tr; size_t how = c.draw(5); CP t { cp };
    if(how == 0) { if(cp > 127) how = 2; else tr.root().insert("c", (char)cp); }
    if(how == 1) { if(cp > 0xFFFF) how = 2; else tr.root().insert("c", (char16_t)cp); }
    if(how == 2) tr.root().insert("c", (char32_t)cp); if(how == 3) tr.root().insert("c", (wchar_t)cp); if(how == 4) tr.root().insert("c", to8(t));
    Fmt f = pick_fmt(c); auto b = write(tr, f); Doc w = Doc::obj(); w.m.emplace_back("c", Doc::str(to8(t))); std::string why; CHECK(c, equal(norm(decode(f, b)), w, &why), why);
    bool direct = c.flip();
    chars([&](auto z) { using T = decltype(z); T x = T('q'); bool fits = as<T>(t).size() == 1;
        auto e = thrown([&] { if(direct) with(f, [&](auto& p) { source(Pointer, b, 1, [&](auto& s) { Srl::Tree u; u.unpack(s, p, "c", x); }); }); else x = tr.root().template unwrap_field<T>("c"); });
        CHECK(c, e.empty() == fits, "character U+" << cp << " as " << sizeof(T) << " byte character: " << (fits ? e : "isn't refused"));
        if(fits) CHECK(c, x == as<T>(t)[0], "character U+" << cp << " read as " << (uint32_t)x); });
}

// ill-formed text: refused with an exception or empty, when it has to be converted
PBT_TEST(ill_formed, 120000, 6000000)
{
    Gen g(c); auto t = gen(c, g, 30); auto from = encs[c.draw(3)]; Bytes b;
    size_t at = c.draw(t.size() + 1); Bytes head = bytes(CP(t.begin(), t.begin() + at), from), tail = bytes(CP(t.begin() + at, t.end()), from), bad;
    if(from == Srl::Encoding::UTF8) {
        switch(c.draw(9)) {
            case 0: bad = Bytes(1, (char)(0x80 + c.draw(64))); break;                                          // stray continuation
            case 1: bad = utf8(0x80 + c.draw(0xD000)); bad.pop_back(); if(!tail.empty() && (uint8_t)tail[0] >= 0x80) { } break;   // truncated sequence
            case 2: bad = Bytes("\xC0", 1) + (char)(0x80 + c.draw(64)); break;                                  // overlong
            case 3: bad = Bytes("\xE0", 1) + (char)(0x80 + c.draw(32)) + (char)(0x80 + c.draw(64)); break;
            case 4: bad = Bytes("\xF0", 1) + (char)(0x80 + c.draw(16)) + (char)(0x80 + c.draw(64)) + (char)(0x80 + c.draw(64)); break;
            case 5: bad = Bytes("\xED", 1) + (char)(0xA0 + c.draw(32)) + (char)(0x80 + c.draw(64)); break;       // surrogate
            case 6: bad = Bytes("\xF4", 1) + (char)(0x90 + c.draw(48)) + (char)(0x80 + c.draw(64)) + (char)(0x80 + c.draw(64)); break;
            case 7: bad = Bytes(1, (char)(0xF5 + c.draw(11))) + Bytes(c.draw(5), (char)0x80); break;
            default: bad = utf8(0x10000 + c.draw(0x1000)).substr(0, 2 + c.draw(2)); break;
        }
    } else if(from == Srl::Encoding::UTF16) {
        char16_t hi = 0xD800 + c.draw(0x400), lo = 0xDC00 + c.draw(0x400); std::u16string s;
        switch(c.draw(4)) { case 0: s = std::u16string(1, lo); break; case 1: s = std::u16string(1, hi); break; case 2: s = std::u16string(1, hi) + u'a'; break; default: s = std::u16string(1, hi) + hi; }
        bad = raw(s); if(c.chance(1, 6)) { bad = Bytes(1, 'a'); tail.clear(); }                                   // odd number of bytes
        else if(s.size() == 1 && s[0] == hi && tail.size() >= 2 && ((uint8_t)tail[1] & 0xFC) == 0xDC) throw pbt::Discard{};
    } else {
        uint32_t x = c.flip() ? 0xD800 + c.draw(0x800) : c.flip() ? 0x110000 + (uint32_t)c.draw(0x1000) : 0xFFFFFFFF - (uint32_t)c.draw(0x70000000);
        bad = Bytes((const char*)&x, 4); if(c.chance(1, 6)) { bad = Bytes(1 + c.draw(3), 'a'); tail.clear(); }
    }
    b = head + bad + tail;
    if(from == Srl::Encoding::UTF8) { bool ok = true; from_utf8(b, &ok); if(ok) throw pbt::Discard{}; }
    auto to = encs[c.draw(3)]; if(to == from) to = encs[(c.draw(2) + 1 + (from == encs[0] ? 0 : from == encs[1] ? 1 : 2)) % 3];
    c.nontrivial(); c.note("ill-formed ", ename(from), " ", hex(b), " -> ", ename(to));
    Held h(b, from);
    std::vector<uint8_t> r; auto e = thrown([&] { r = Srl::Tools::conv_charset(to, h.s, true); });
    CHECK(c, !e.empty(), "ill-formed " << ename(from) << " " << hex(b) << " is converted to " << hex(str(r)));
    e = thrown([&] { r = Srl::Tools::conv_charset(to, h.s, false); }); CHECK(c, e.empty() && r.empty(), "conversion without exceptions gives " << hex(str(r)) << " " << e);
    std::vector<uint8_t> buf(c.draw(50)); size_t n = 77; size_t idx = c.draw(buf.size() + 1); e = thrown([&] { n = Srl::Tools::conv_charset(to, h.s, buf, false, idx); }); CHECK(c, e.empty() && n == 0, "conversion to a buffer gives " << n << " bytes " << e);
    if(from != encs[0]) { // stored as value or name it has to be converted to UTF-8
        Fmt f = pick_fmt(c); Srl::Tree t1; auto e1 = thrown([&] { t1.root().insert("x", h.s); write(t1, f); }); CHECK(c, !e1.empty(), "ill-formed value is written");
        Srl::Tree t2; auto e2 = thrown([&] { t2.root().insert(h.s, 1); write(t2, f); }); CHECK(c, !e2.empty(), "ill-formed name is accepted");
        CHECK(c, !t1.root().has_value(h.s) && !t1.try_get(h.s), "ill-formed name is found");
    } else {
        Srl::Tree t1; t1.root().insert("x", h.s); CHECK(c, !thrown([&] { t1.root().unwrap_field<std::u16string>("x"); }).empty(), "ill-formed text read as UTF-16"); CHECK(c, !thrown([&] { t1.root().unwrap_field<char32_t>("x"); }).empty(), "ill-formed text read as character");
        char16_t ar[64]; CHECK(c, !thrown([&] { t1.root().paste_field("x", ar); }).empty(), "ill-formed text read as UTF-16 array");
    }
}
