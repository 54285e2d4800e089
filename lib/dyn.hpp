// Objects whose shape (number, types, names and flags of fields, nesting) is drawn at run time.
// DynS<L>/DynR<L> hold fields according to schema(L); nested objects are of level L+1.
#pragma once
#include "bridge.hpp"
#include "dyn_a.hpp"
#include "dyn_b.hpp"
#include "dyn_c.hpp"
#include "dyn_d.hpp"

namespace dyn {
using doc::Doc; using doc::Bytes; using doc::Gen; using pbt::Case;

const int LEVELS = 3;

// marks in Doc::i of Obj documents made from objects
enum { Tag_Struct = 1000 /* + level */, Tag_Table = 2000 };
// ---- counts and comparison state ----
struct Docs { std::map<const void*, uint64_t> shared; };      // keys given to shared objects, in order of appearance
struct Cmp { std::string why; bool no(const std::string& path, const std::string& w) { if(why.empty()) why = path + ": " + w; return false; } };

struct Field {
    virtual ~Field() { }
    virtual void resolve(Srl::Context& c, const Srl::String* name, uint64_t flags) = 0;
    virtual void store(Srl::StoreContext& c, const Srl::String* name, uint64_t flags) const = 0;
    virtual void restore(Srl::RestoreContext& c, const Srl::String* name, uint64_t flags) = 0;
    virtual std::unique_ptr<Field> clone() const = 0;          // deep copy
    virtual void gen(Gen&) = 0;
    virtual bool equal(const Field&, Cmp&, const std::string& path) const = 0;
    virtual Doc  doc(Docs&) const = 0;
};
enum Flags { Leaf = 1, Scope = 2, Struct = 4, Shared = 8, Wide = 16, Unordered = 32 /* order of its content isn't defined */ };
struct Kind { const char* name; unsigned flags; std::unique_ptr<Field> (*make)(int level); };   // level: that of nested structs
std::vector<Kind>& kinds();
struct Spec { const Kind* kind; Bytes name; int enc = 0; bool positional = false, optional = false; };
std::vector<Spec>& schema(int level);
long& budget();                          // elements of containers still to be generated for the object at hand

struct Base {
    int level; std::vector<std::unique_ptr<Field>> f;
    explicit Base(int l);
    Base(const Base& o);
    Base(Base&& o) noexcept : level(o.level), f(std::move(o.f)) { o.reset(); }
    Base& operator=(const Base& o) { if(this != &o) { Base t(o); f = std::move(t.f); } return *this; }
    Base& operator=(Base&& o) noexcept { if(this != &o) { f = std::move(o.f); o.reset(); } return *this; }
    void reset();                        // default values
    void gen(Gen&);
    bool equal(const Base&, Cmp&, const std::string& path) const;
    Doc  doc(Docs&) const;
    Doc  doc() const { Docs d; return doc(d); }
    void res(Srl::Context&);
    void sto(Srl::StoreContext&) const;
    void rst(Srl::RestoreContext&);
};
template<int L> struct DynS : Base {
    DynS() : Base(L) { }
    void srl_resolve(Srl::Context& c) { res(c); }
};
template<int L> struct DynR : Base {
    DynR() : Base(L) { }
    void srl_store(Srl::StoreContext& c) const { sto(c); }
    void srl_restore(Srl::RestoreContext& c) { rst(c); }
};
typedef DynS<0> Dyn;

struct Opt { bool shared = true, optional = true, positional = true, allow_collide = true, structs = true; unsigned only = 0; size_t max_fields = 8; };
// draws schemas for all levels; names of one level are distinct
void draw_schema(Gen& g, const Opt& o = Opt());
std::string show_schema();
bool has_kind(unsigned flags);           // reachable from level 0
void name_call(const Spec& s, const std::function<void(const Srl::String&)>& fn);
}
