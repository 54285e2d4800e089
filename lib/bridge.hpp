// Connects the independent document model with the library (public interfaces only).
#pragma once
#include "doc.hpp"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <list>
#include <memory>

namespace br {
using doc::Doc; using doc::Bytes; using pbt::Case;

enum Fmt { JC, JS, MP, SR };            // JSON compact, JSON spaced, MessagePack, Srl
const char* name(Fmt);
inline bool text(Fmt f) { return f == JC || f == JS; }
inline Fmt  pick_fmt(Case& c) { return (Fmt)c.draw(4); }

// calls fn with a parser object of the format
template<class F> auto with(Fmt f, F&& fn)
{
    switch(f) {
        case JC: { Srl::PJson p;        return fn(p); }
        case JS: { Srl::PJson p(false); return fn(p); }
        case MP: { Srl::PMsgPack p;     return fn(p); }
        default: { Srl::PSrl p;         return fn(p); }
    }
}
inline std::vector<uint8_t> vec(const Bytes& b) { return std::vector<uint8_t>(b.begin(), b.end()); }
inline Bytes str(const std::vector<uint8_t>& v) { return Bytes(v.begin(), v.end()); }

// ---- documents ----
// inserts d's children (c: varies the way they are inserted, may be null)
void build(Srl::Node& n, const Doc& d, Case* c = nullptr);
Doc  dump(Srl::Node& n);                // values first, then nodes
Doc  dump(const Srl::Value& v);
inline Srl::Type type(const Doc& d) { return d.k == doc::Arr ? Srl::Type::Array : Srl::Type::Object; }
inline void make(Srl::Tree& t, const Doc& d, Case* c = nullptr) { t = Srl::Tree(type(d)); build(t.root(), d, c); }

// ---- streams ----
// delivers data in chunks of at most `chunk` bytes; `at`: initial position behind a prefix
struct ChunkBuf : std::streambuf {
    Bytes data; size_t pos = 0; size_t chunk; char cur[4096];
    ChunkBuf(Bytes d, size_t chunk_) : data(std::move(d)), chunk(std::min<size_t>(chunk_ ? chunk_ : 1, sizeof cur)) { }
    int_type underflow() override
    {
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t n = std::min(chunk, data.size() - pos);
        if(!n) return traits_type::eof();
        memcpy(cur, data.data() + pos, n); pos += n;
        setg(cur, cur, cur + n);
        return traits_type::to_int_type(*gptr());
    }
};
// how a document is handed to the library
enum Via { Vector, Pointer, String, SStream, Chunked };
inline Via pick_via(Case& c) { return (Via)c.draw(5); }
// calls fn(Source&) with the bytes in an exactly sized heap block or a stream
template<class F> auto source(Via via, const Bytes& b, size_t chunk, F&& fn)
{
    using S = Srl::Lib::In::Source;
    switch(via) {
        case Vector:  { std::vector<uint8_t> v(b.begin(), b.end()); v.shrink_to_fit(); S s(v); return fn(s); }
        case Pointer: { std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]); memcpy(p.get(), b.data(), b.size()); S s(p.get(), b.size()); return fn(s); }
        case String:  { std::string x = b; S s(x); return fn(s); }
        case SStream: { std::istringstream i(b); S s(i); return fn(s); }
        default:      { ChunkBuf cb(b, chunk); std::istream i(&cb); S s(i); return fn(s); }
    }
}
inline size_t pick_chunk(Case& c) { return c.pickl<size_t>({ 1024, 1, 2, 3, 7, 64, 1023, 4096 }); }

// ---- tree <-> bytes ----
Bytes write(Srl::Tree& t, Fmt f, bool stream = false);
void  load(Srl::Tree& t, Fmt f, const Bytes& b, Via via = Pointer, size_t chunk = 1024);
Doc   load_doc(Fmt f, const Bytes& b, Via via = Pointer, size_t chunk = 1024);   // fresh tree
Bytes write_doc(Fmt f, const Doc& d);                                            // through the library
// direct output (no tree in between); d must be an Obj. store: an object with these fields; pack: one item "root" / all fields
struct DocObj {
    const Doc* d = nullptr; Case* c = nullptr;
    void srl_store(Srl::StoreContext& ctx) const;
    void srl_restore(Srl::RestoreContext&) { }
};
Bytes store_doc(Fmt f, const Doc& d, Case* c = nullptr, bool stream = false);
Bytes pack_doc(Fmt f, const Doc& d, bool stream = false);       // {"root": d}
// independent encoder / decoder of a format
Bytes encode(Fmt f, const Doc& d);
Doc   decode(Fmt f, const Bytes& b);
Doc   expect(Fmt f, const Doc& d);       // what a document looks like after one trip through f

// message of the exception fn throws, or "" if none
template<class F> std::string thrown(F&& fn)
{
    try { fn(); } catch(const std::exception& e) { std::string w = e.what(); return w.empty() ? "exception" : w; }
    return "";
}
}
