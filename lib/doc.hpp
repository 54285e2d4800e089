// Independent document model, codecs (JSON / MessagePack / Srl), generators and comparison.
// Nothing here uses the library except the bridge functions at the end.
#pragma once
#include "pbt.hpp"
#include <cmath>
#include <cstring>
#include <optional>

namespace doc {
using pbt::Case;
typedef std::string Bytes;           // raw bytes

enum Kind { Null, Bool, Int, Flt, Str, Bin, Obj, Arr };
// C++ type an integer/float is handed to the library with
enum CT { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64 };

struct Doc {
    Kind        k = Null;
    bool        b = false;
    __int128    i = 0;
    double      f = 0;
    CT          ct = I64;
    Bytes       s;                   // Str / Bin payload
    std::vector<std::pair<Bytes, Doc>> m;   // children in order (names empty in arrays)

    bool scope() const { return k == Obj || k == Arr; }
    static Doc obj() { Doc d; d.k = Obj; return d; }
    static Doc arr() { Doc d; d.k = Arr; return d; }
    static Doc str(Bytes v) { Doc d; d.k = Str; d.s = std::move(v); return d; }
    static Doc bin(Bytes v) { Doc d; d.k = Bin; d.s = std::move(v); return d; }
    static Doc integer(__int128 v, CT t = I64) { Doc d; d.k = Int; d.i = v; d.ct = t; return d; }
    static Doc flt(double v, CT t = F64) { Doc d; d.k = Flt; d.f = v; d.ct = t; return d; }
    static Doc boolean(bool v) { Doc d; d.k = Bool; d.b = v; return d; }
};

// ---- text helpers ----
Bytes utf8(uint32_t cp);
std::vector<uint32_t> from_utf8(const Bytes&, bool* ok = nullptr);   // strict
std::u16string to16(const std::vector<uint32_t>&);
std::u32string to32(const std::vector<uint32_t>&);
Bytes base64(const Bytes&);
std::optional<Bytes> base64_decode(const Bytes&);                    // strict RFC 4648
Bytes hex(const Bytes&, size_t max = 400);
std::string show(const Doc&, size_t max = 1500);
std::string quote(const Bytes&, size_t max = 300);
std::string i128(__int128);

// ---- normal forms and comparison ----
// order of values among values and nodes among nodes is kept; the relative order of the two is not modelled
Doc norm(const Doc&);                      // reorder: values first, names dropped in arrays
Doc text_norm(const Doc&);                 // norm + what a text format does: Bin->base64 Str, integral floats->Int
bool equal(const Doc& a, const Doc& b, std::string* why = nullptr, const std::string& path = "$", bool mixed = false);
bool text_equal(const Doc& a, const Doc& b, std::string* why = nullptr);   // equal up to what a text format may change
bool equal_num(const Doc& a, const Doc& b);

// ---- independent codecs ----
struct Bad : std::runtime_error { using runtime_error::runtime_error; };
Doc   json_parse(const Bytes&);                      // strict RFC 8259, UTF-8 checked; throws Bad
Bytes json_strip(const Bytes&);                      // removes whitespace outside of strings
Doc   msgpack_parse(const Bytes&, bool whole = true);
Bytes srl_write(const Doc&);                         // canonical Srl bytes; values/nodes in given order
Doc   srl_parse(const Bytes&, std::vector<Bytes>* names = nullptr, bool* names_once = nullptr);

// ---- generators ----
struct Gen {
    Case& c;
    bool  nonfinite   = false;    // NaN, infinities
    bool  negzero     = true;
    bool  names_nasty = true;     // names with quotes, control characters, ...
    bool  binary      = true;
    bool  big         = true;     // sizes across 255/65535 boundaries (rare)
    bool  dup_names   = true;
    size_t max_depth  = 6;
    std::vector<Bytes> used;      // names used so far in this document

    explicit Gen(Case& c_) : c(c_) {}
    uint32_t codepoint();
    Bytes    text(size_t max = 60);       // valid UTF-8
    Bytes    ascii(size_t max = 20);
    Bytes    blob(size_t max = 60);
    size_t   boundary_size();             // around encoding boundaries
    Bytes    name();
    __int128 integer_for(CT t);
    double   dbl();
    float    flt();
    Doc      scalar();
    Doc      tree(size_t depth = 0, size_t budget = 30);   // Obj or Arr
    // like tree() but a root of up to n wide/deep special shapes
    Doc      special();
    Doc      any() { return c.chance(1, 12) ? special() : tree(); }
};

// encoders with free choices
struct JsonStyle { bool ws = true, escapes = true, numbers = true, comments = false; };
// writes a text for d; numbers written in alternative notations change d's value only within `expect`
Bytes json_write(Case& c, const Doc& d, const JsonStyle& st, Doc* expect = nullptr);
Bytes json_plain(const Doc& d);
Bytes msgpack_write(Case* c, const Doc& d);          // c == nullptr: minimal encodings

// colliding names under the library's 64 bit name hash
extern const char* const collide[4];
size_t depth(const Doc&);
size_t nodes(const Doc&);
}
