// C10: streams and memory buffers are equivalent.
#include "dyn.hpp"
#include "mutate.hpp"
#include <fstream>
#include <unistd.h>
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C10", "random and mutated documents (to several 100 KB) read from string, file and custom streams in fixed or random chunks, also from behind a consumed prefix, and written to string, file "
         "and custom streams with and without content before the start, seekable or not, compared with the in-memory result; non-trivial: more than one chunk/segment or a prefix or existing content")

// delivers random chunks, optionally throws at the end
struct RandBuf : std::streambuf {
    Bytes data; size_t pos = 0; std::vector<size_t> sizes; size_t k = 0; char cur[2048];
    bool block = false;                       // xsgetn hands out at most one chunk only when asked for one at a time
    int_type underflow() override
    {
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t n = std::min(std::min(sizes[k++ % sizes.size()], sizeof cur), data.size() - pos);
        if(!n) return traits_type::eof();
        memcpy(cur, data.data() + pos, n); pos += n; setg(cur, cur, cur + n);
        return traits_type::to_int_type(*gptr());
    }
};
// writes into a string; seekable or not; small internal chunks
struct OutBuf : std::streambuf {
    Bytes data; size_t pos = 0; bool seekable = true; size_t writes = 0;
    int_type overflow(int_type ch) override { if(traits_type::eq_int_type(ch, traits_type::eof())) return 0; char x = (char)ch; xsputn(&x, 1); return ch; }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        writes++;
        if(data.size() < pos + n) data.resize(pos + n);
        memcpy(&data[pos], p, n); pos += n; return n;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        if(!seekable) return pos_type(off_type(-1));
        off_type b = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)pos : (off_type)data.size();
        if(b + o < 0) return pos_type(off_type(-1));
        pos = (size_t)(b + o); return pos_type(b + o);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
// a document of a size around and beyond the library's buffers
static Doc sized(Case& c, Gen& g)
{
    if(c.chance(2, 3)) return g.any();
    Doc d = c.flip() ? Doc::obj() : Doc::arr(); size_t n = 1 + c.draw(12);
    for(size_t i = 0; i < n; i++) {
        size_t len = c.pickl<size_t>({ 1000, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 100, 10, 8191, 20000, 65535, 65536, 70000, 0 });
        if(c.flip()) len += c.draw(8);
        Doc v; switch(c.draw(4)) {
            case 0: v = Doc::str(Bytes(len, (char)('a' + i))); break;
            case 1: v = Doc::bin(g.blob(8)); v.s.resize(len, (char)0xA5); break;
            case 2: { v = Doc::arr(); size_t k = len / 3; if(k > 9000) k = 9000; for(size_t j = 0; j < k; j++) v.m.emplace_back("", Doc::integer(j % 120)); break; }
            default: v = Doc::obj(); v.m.emplace_back(Bytes(len % 4000, 'n'), Doc::integer(i)); v.m.emplace_back("s", Doc::str(Bytes(len / 2, 'q'))); break;
        }
        d.m.emplace_back(d.k == Obj ? "f" + std::to_string(i) : "", v);
    }
    return d;
}
struct Out { std::string err; Doc d; };
template<class F> static Out attempt(F&& fn) { Out o; try { o.d = fn(); } catch(const std::exception& e) { o.err = e.what(); if(o.err.empty()) o.err = "exception"; } return o; }
static void same(Case& c, const Out& mem, const Out& st, const std::string& how, const Bytes& b)
{
    CHECK(c, mem.err.empty() == st.err.empty(), how << ": from memory " << (mem.err.empty() ? "accepted" : "refused: " + mem.err) << ", from the stream " << (st.err.empty() ? "accepted" : "refused: " + st.err) << "\nbytes " << quote(b, 800));
    std::string why;
    if(mem.err.empty()) CHECK(c, equal(norm(st.d), norm(mem.d), &why), how << ": " << why << "\nmemory " << show(mem.d, 600) << "\nstream " << show(st.d, 600) << "\nbytes " << quote(b, 800));
}
static std::string scratch(Case& c) { return "c10." + std::to_string(getpid()) + ".tmp"; }    // the working directory is a scratch directory of run.py

PBT_TEST(reading, 4000, 180000)
{
    Gen g(c); Fmt f = pick_fmt(c); g.nonfinite = !text(f);
    Doc d = sized(c, g);
    Bytes b = wild(c, f, d); bool mut = c.chance(1, 3);
    if(mut) b = mutate(c, b, f, 3);
    Bytes prefix; if(c.flip()) { size_t n = c.pickl<size_t>({ 1, 2, 7, 1023, 1024, 5000 }); for(size_t i = 0; i < n; i++) prefix += (char)(i * 7 + 1); }
    size_t chunk = pick_chunk(c); bool reuse = c.flip();
    c.nontrivial(b.size() > chunk || prefix.size());
    c.label(mut ? "mutated" : "valid"); if(b.size() > 65536) c.label("beyond 64 KiB");
    c.note(name(f), " prefix ", prefix.size(), " chunk ", chunk, " bytes ", quote(b, 700));
    auto mem = attempt([&] { return load_doc(f, b, Pointer); });
    if(!mut) CHECK(c, mem.err.empty(), "valid " << name(f) << " refused: " << mem.err << " " << quote(b, 500));
    auto via_stream = [&](std::istream& i) {
        return with(f, [&](auto& p) { Srl::Tree t; if(reuse) { try { t.load_source((const uint8_t*)"\x81\xA1", 2, p); } catch(const std::exception&) { } } t.load_source(i, p); return dump(t.root()); });
    };
    auto skip = [&](std::istream& i) { Bytes x(prefix.size(), 0); i.read(&x[0], x.size()); if(x != prefix) throw std::runtime_error("prefix"); };
    { std::istringstream i(prefix + b); skip(i); same(c, mem, attempt([&] { return via_stream(i); }), "istringstream", b); }
    { ChunkBuf cb(prefix + b, chunk); std::istream i(&cb); skip(i); same(c, mem, attempt([&] { return via_stream(i); }), "chunks of " + std::to_string(chunk), b); }
    { RandBuf rb; rb.data = prefix + b; size_t n = 1 + c.draw(6); for(size_t k = 0; k < n; k++) rb.sizes.push_back(1 + (c.flip() ? c.draw(8) : c.draw(2000)));
      std::istream i(&rb); skip(i); same(c, mem, attempt([&] { return via_stream(i); }), "random chunks", b); }
    if(c.chance(1, 6)) {
        auto fn = scratch(c); { std::ofstream o(fn, std::ios::binary); o << prefix << b; }
        std::ifstream i(fn, std::ios::binary); skip(i); auto r = attempt([&] { return via_stream(i); }); i.close(); unlink(fn.c_str());
        same(c, mem, r, "ifstream", b); c.label("files");
    }
    // two documents of one stream can't be told apart after the first one was read, but a stream with exceptions enabled behaves alike
    { std::istringstream i(b); i.exceptions(std::ios::badbit); same(c, mem, attempt([&] { return via_stream(i); }), "istringstream with exceptions", b); }
}

PBT_TEST(objects, 2000, 60000)
{
    Gen g(c); dyn::Opt o; dyn::draw_schema(g, o);
    Dyn a; a.gen(g); if(c.chance(1, 4)) { g.big = true; a.gen(g); }
    Fmt f = pick_fmt(c); size_t chunk = pick_chunk(c);
    // writing
    Bytes mem = with(f, [&](auto& p) { return str(Srl::Tree().store(a, p)); });
    c.nontrivial(mem.size() > chunk);
    { std::ostringstream os; with(f, [&](auto& p) { Srl::Tree().store(a, os, p); }); CHECK(c, os.str() == mem, name(f) << " store to a stream: " << quote(os.str(), 500) << " vs memory " << quote(mem, 500)); }
    Bytes b = c.chance(1, 4) ? mutate(c, mem, f, 2) : mem;
    c.note(dyn::show_schema(), name(f), " ", quote(b, 500));
    auto shot = [&](auto& s) { return attempt([&] { Dyn t; with(f, [&](auto& p) { Srl::Tree().restore(t, s, p); }); return t.doc(); }); };
    Srl::Lib::In::Source ms((const uint8_t*)b.data(), b.size());
    auto m = shot(ms);
    if(b == mem) CHECK(c, m.err.empty(), "restore of a stored object: " << m.err << "\n" << dyn::show_schema());
    ChunkBuf cb(b, chunk); std::istream i(&cb); Srl::Lib::In::Source ss(i);
    if(dyn::has_kind(dyn::Unordered)) { auto s = shot(ss); CHECK(c, m.err.empty() == s.err.empty(), "restore: memory '" << m.err << "' stream '" << s.err << "'\n" << dyn::show_schema() << quote(b, 500)); }
    else same(c, m, shot(ss), "restore in chunks of " + std::to_string(chunk), b);
    // unpack
    std::vector<uint8_t> pv; with(f, [&](auto& p) { Srl::Tree().pack(pv, p, "a", 1, "obj", a, "z", std::string("zz")); });
    Bytes pb = str(pv); if(c.chance(1, 4)) pb = mutate(c, pb, f, 2);
    auto up = [&](auto& s) { return attempt([&] { Dyn t; int x = 0; std::string z; with(f, [&](auto& p) { if(chunk & 1) Srl::Tree().unpack(s, p, "z", z, "obj", t, "a", x); else Srl::Tree().unpack(s, p, "obj", t, "z", z); }); auto r = Doc::arr(); r.m = { { "", Doc::integer(x) }, { "", Doc::str(z) } }; if(!dyn::has_kind(dyn::Unordered)) r.m.push_back({ "", t.doc() }); return r; }); };
    Srl::Lib::In::Source m2((const uint8_t*)pb.data(), pb.size()); auto um = up(m2);
    ChunkBuf cb2(pb, chunk); std::istream i2(&cb2); Srl::Lib::In::Source s2(i2);
    same(c, um, up(s2), "unpack in chunks of " + std::to_string(chunk), pb);
}

PBT_TEST(writing, 4000, 140000)
{
    Gen g(c); Fmt f = pick_fmt(c); g.nonfinite = !text(f);
    Doc d = sized(c, g);
    Srl::Tree t; make(t, d, &c);
    Bytes want = write(t, f);
    { std::vector<uint8_t> v(c.draw(3000), 0xEE); with(f, [&](auto& p) { t.to_source(v, p); }); CHECK(c, str(v) == want, "vector with previous content differs"); }
    Bytes before, after;       // content of the stream in front of and behind the position the document starts at
    if(c.chance(2, 3)) { size_t n = c.pickl<size_t>({ 1, 3, 1000, 1024, 1025, 4000 }); for(size_t i = 0; i < n; i++) before += (char)('A' + i % 26); }
    if(c.chance(1, 3)) { size_t n = c.pickl<size_t>({ 1, 10, 1024, 5000 }); for(size_t i = 0; i < n; i++) after += (char)('a' + i % 26); }
    int kind = (int)c.draw(4);     // 0 to_source 1 pack
    c.nontrivial(want.size() > 1024 || before.size() || after.size());
    if(want.size() > 1024) c.label("several segments");
    c.note(name(f), " ", before.size(), " bytes before, ", after.size(), " after, document of ", want.size(), " bytes ", quote(want, 500));
    bool pack = kind == 1;
    if(pack) want = pack_doc(f, d);
    auto put = [&](std::ostream& o) {
        with(f, [&](auto& p) { if(pack) { std::string dummy; Srl::Tree tr; DocObj dobj; (void)dobj; tr.pack(o, p, "root", t.root()); } else t.to_source(o, p); });
    };
    if(pack) { std::vector<uint8_t> v; with(f, [&](auto& p) { Srl::Tree tr; tr.pack(v, p, "root", t.root()); }); want = str(v); }
    auto expect_full = [&] { Bytes full = before + want; if(after.size() > want.size()) full += after.substr(want.size()); return full; };
    auto cmp = [&](const Bytes& got, const std::string& how) {
        auto full = expect_full();
        if(got != full) { size_t k = 0; while(k < got.size() && k < full.size() && got[k] == full[k]) k++;
            CHECK(c, false, name(f) << " " << how << ": stream holds " << got.size() << " bytes, expected " << full.size() << "; first difference at " << k << " (document starts at " << before.size() << ")\nexpected .. " << quote(full.substr(k, 80), 200) << "\ngot .. " << quote(got.substr(k, 80), 200)); }
    };
    { std::stringstream s(before + after, std::ios::in | std::ios::out | std::ios::binary); s.seekp((std::streamoff)before.size()); put(s); cmp(s.str(), "stringstream");
      // and the position is behind the document: what's written next follows it
      s << "NEXT"; auto full = before + want + "NEXT"; CHECK(c, s.str().compare(0, full.size(), full) == 0, name(f) << ": the stream isn't positioned behind the document"); }
    if(after.empty()) { std::ostringstream s; s << before; put(s); cmp(s.str(), "ostringstream"); }
    { OutBuf ob; ob.data = before + after; ob.pos = before.size(); std::ostream s(&ob); put(s); cmp(ob.data, "custom stream"); }
    if(c.chance(1, 5)) {
        auto fn = scratch(c); { std::ofstream o(fn, std::ios::binary); o << before << after; }
        { std::fstream s(fn, std::ios::in | std::ios::out | std::ios::binary); s.seekp((std::streamoff)before.size()); put(s); }
        std::ifstream i(fn, std::ios::binary); std::stringstream got; got << i.rdbuf(); unlink(fn.c_str());
        cmp(got.str(), "fstream"); c.label("files");
    }
    // not seekable: the same bytes or an exception, and nothing but the beginning of the document was written
    { OutBuf ob; ob.data = before; ob.pos = before.size(); ob.seekable = false; std::ostream s(&ob);
      auto m = thrown([&] { put(s); });
      if(m.empty()) { Bytes sv = after; after.clear(); cmp(ob.data, "unseekable stream"); after = sv; }
      else {
          CHECK(c, f == MP && want.size() > 1024, name(f) << " refuses an unseekable stream: " << m);
          CHECK(c, ob.data.compare(0, before.size(), before) == 0, "content in front of the document was changed");
          c.label("unseekable refused");
      } }
}
