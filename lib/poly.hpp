// Polymorphic, shared and owning test types with instance accounting and fault injection.
#pragma once
#include "bridge.hpp"
#include <functional>
#include <map>
#include <list>

namespace poly {
using doc::Bytes; using doc::Gen; using pbt::Case;

struct Fault : std::runtime_error { Fault() : std::runtime_error("injected fault") { } };
struct State {                         // per thread
    long live = 0;                     // Counted objects alive
    long fault = -1;                   // >= 0: the n-th next construction or resolve step throws
    long steps = 0;
    std::vector<int> order;            // permutation of Holder's fields
    unsigned mask = ~0u;               // Holder's fields in use
    long budget = 0;                   // nested objects still to be generated
    bool sharing = true;               // shared pointers refer to common objects
    std::vector<std::shared_ptr<void>> pool;
};
State& state();
void step();                           // throws Fault when due

struct Counted {
    uint32_t magic;
    Counted() { step(); state().live++; magic = 0xA11FE; }
    Counted(const Counted&) { state().live++; magic = 0xA11FE; }
    Counted(Counted&&) noexcept { state().live++; magic = 0xA11FE; }
    Counted& operator=(const Counted&) = default;
    Counted& operator=(Counted&&) = default;
    ~Counted();
};
// comparison of object graphs: the same objects have to correspond to the same objects
struct Iso { std::map<const void*, const void*> ab, ba; std::string why; bool no(const std::string& p, const std::string& w) { if(why.empty()) why = p + ": " + w; return false; } bool link(const void* a, const void* b, bool* first, const std::string& p); };

struct Shape : Counted {
    int64_t id = 0;
    Shape() { }
    virtual ~Shape() { }
    virtual const Srl::TypeID& srl_type_id();
    virtual void srl_resolve(Srl::Context& c);
    virtual void gen(Gen& g, int depth);
    virtual bool equal(const Shape& o, Iso&, const std::string& p) const;
    virtual std::string show() const { return "Shape"; }
};
struct Circle : Shape {
    double r = 0; std::string name;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override { return "Circle"; }
};
struct Ring : Circle {
    float inner = 0; std::vector<int> marks;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override { return "Ring"; }
};
struct Group : Shape {
    std::vector<std::unique_ptr<Shape>> kids; std::list<std::unique_ptr<Circle>> circles;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override;
};
struct Mixin { int64_t pad = 0x1234; std::string pads = "mixin"; virtual ~Mixin() { } };
struct Tagged : Mixin, Shape {         // Shape isn't at the object's address
    std::u16string tag;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override { return "Tagged"; }
};
struct Owner : Shape {                 // raw owning pointers, always set after gen
    Shape* s = nullptr; Circle* c = nullptr; int* n = nullptr;
    ~Owner() { delete s; delete c; delete n; }
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override;
};
struct Plain : Counted {               // not polymorphic
    int n = 0; std::string s;
    void srl_resolve(Srl::Context& c);
    void gen(Gen& g);
    bool equal(const Plain& o, Iso&, const std::string& p) const;
    bool operator<(const Plain& o) const { return n < o.n; }
};
struct Link : Shape {                  // references to common objects
    std::shared_ptr<Shape> a; std::shared_ptr<Plain> b; std::weak_ptr<Shape> w;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override;
};
struct Virt : virtual Shape {          // virtual inheritance
    int v = 0;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; void gen(Gen& g, int depth) override;
    bool equal(const Shape& o, Iso&, const std::string& p) const override; std::string show() const override { return "Virt"; }
};
struct Animal : Counted {              // another hierarchy
    int legs = 4; virtual ~Animal() { }
    virtual const Srl::TypeID& srl_type_id(); virtual void srl_resolve(Srl::Context& c);
};
struct Dog : Animal { std::string name; const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override; };
extern const char* const ids[10];      // registered ids
extern const int n_shapes;             // the first n are Shapes
std::unique_ptr<Shape> make_shape(Gen& g, int depth);       // random dynamic type
std::unique_ptr<Circle> make_circle(Gen& g, int depth);     // Circle or Ring

// an object with every kind of owning or sharing member
struct Holder : Counted {
    std::unique_ptr<Shape> u; std::shared_ptr<Shape> s1, s2; std::weak_ptr<Shape> w; std::shared_ptr<Plain> p1, p2; std::weak_ptr<Plain> wp;
    std::vector<std::shared_ptr<Plain>> vp; Shape* raw = nullptr; Plain* rawp = nullptr; std::vector<std::unique_ptr<Circle>> vc;
    std::list<Plain> lp; std::map<int, Plain> mp; std::unique_ptr<Plain> up; std::shared_ptr<int> si, si2; Plain arr[2]; std::pair<Plain, int> pr; std::tuple<int, Plain> tp;
    std::vector<std::shared_ptr<Shape>> vs; std::map<std::string, std::shared_ptr<Shape>> ms; std::shared_ptr<Circle> sc; Shape* raw2 = nullptr; std::shared_ptr<std::vector<int>> sv;
    std::string text; int num = 0; std::unique_ptr<std::vector<Plain>> uvp;
    static const int Fields = 25;
    Holder() { }
    Holder(const Holder&) = delete; Holder& operator=(const Holder&) = delete;
    ~Holder() { delete raw; delete rawp; delete raw2; }
    void srl_resolve(Srl::Context& c);
    void gen(Gen& g);
    bool equal(const Holder& o, Iso&) const;
    std::string show() const;
};
void reset(Case& c);      // random field selection and order, no faults
void forget();            // drops the pools of common objects
}
