#include "poly.hpp"
#include <typeinfo>
using namespace doc;
namespace poly {
State& state() { static thread_local State s; return s; }
void step() { auto& s = state(); s.steps++; if(s.fault >= 0 && s.fault-- == 0) throw Fault(); }
Counted::~Counted() { if(magic != 0xA11FE) { fprintf(stderr, "destroyed twice\n"); abort(); } *(volatile uint32_t*)&magic = 0xDEAD; state().live--; }
bool Iso::link(const void* a, const void* b, bool* first, const std::string& p)
{
    auto x = ab.find(a); auto y = ba.find(b);
    *first = x == ab.end() && y == ba.end();
    if(*first) { ab[a] = b; ba[b] = a; return true; }
    if(x == ab.end()) return no(p, "refers to an object which was restored for another one");
    if(y == ba.end() || x->second != b) return no(p, "refers to another object than before");
    return true;
}
#define REG(T, NAME) static const auto id_##T = Srl::register_type<T>(NAME); const Srl::TypeID& T::srl_type_id() { return id_##T; }
REG(Shape, "Shape") REG(Circle, "Circle") REG(Ring, "poly::Ring with a rather long identifier") REG(Group, "Group") REG(Tagged, "T\xC3\xA4gged") REG(Owner, "Owner") REG(Link, "Link") REG(Virt, "Virt") REG(Animal, "Animal") REG(Dog, "Dog")
const char* const ids[10] = { "Shape", "Circle", "poly::Ring with a rather long identifier", "Group", "T\xC3\xA4gged", "Owner", "Link", "Virt", "Animal", "Dog" };
const int n_shapes = 8;

template<class T> static bool cmp(const T& a, const T& b, Iso& i, const std::string& p) { return a == b || (a != a && b != b) || i.no(p, "value differs"); }
static bool cmp(const std::unique_ptr<Shape>& a, const std::unique_ptr<Shape>& b, Iso& i, const std::string& p)
{ if(!a != !b) return i.no(p, a ? "got null" : "expected null"); return !a || a->equal(*b, i, p); }
static bool cmp(const std::unique_ptr<Circle>& a, const std::unique_ptr<Circle>& b, Iso& i, const std::string& p)
{ if(!a != !b) return i.no(p, a ? "got null" : "expected null"); return !a || a->equal(*b, i, p); }
template<class T> static bool cmps(const T* a, const T* b, Iso& i, const std::string& p)
{
    if(!a != !b) return i.no(p, a ? "got null" : "expected null");
    if(!a) return true;
    bool first; if(!i.link(a, b, &first, p)) return false;
    if(!first) return true;
    if constexpr(std::is_same<T, int>::value || std::is_same<T, std::vector<int>>::value) return *a == *b || i.no(p, "value differs");
    else return a->equal(*b, i, p);
}
#define KIND(T) if(typeid(o) != typeid(T)) return i.no(p, std::string("expected dynamic type ") + T::show() + ", got " + o.show()); auto& x = dynamic_cast<const T&>(o)

void Shape::srl_resolve(Srl::Context& c) { step(); c("id", id); step(); }
void Shape::gen(Gen& g, int) { id = (int64_t)g.integer_for(I64); }
bool Shape::equal(const Shape& o, Iso& i, const std::string& p) const
{
    if(typeid(o) != typeid(*this)) return i.no(p, "expected dynamic type " + show() + ", got " + o.show());
    return cmp(id, o.id, i, p + ".id");
}
void Circle::srl_resolve(Srl::Context& c) { Shape::srl_resolve(c); c("r", r)("name", name); step(); }
void Circle::gen(Gen& g, int d) { Shape::gen(g, d); r = g.dbl(); name = g.text(20); }
bool Circle::equal(const Shape& o, Iso& i, const std::string& p) const { if(!Shape::equal(o, i, p)) return false; auto& x = dynamic_cast<const Circle&>(o); return cmp(r, x.r, i, p + ".r") && cmp(name, x.name, i, p + ".name"); }
void Ring::srl_resolve(Srl::Context& c) { c("marks", marks); Circle::srl_resolve(c); c("inner", inner); step(); }
void Ring::gen(Gen& g, int d) { Circle::gen(g, d); inner = g.flt(); marks.assign(g.c.draw(4), 5); }
bool Ring::equal(const Shape& o, Iso& i, const std::string& p) const { if(!Circle::equal(o, i, p)) return false; auto& x = dynamic_cast<const Ring&>(o); return cmp(inner, x.inner, i, p + ".inner") && cmp(marks, x.marks, i, p + ".marks"); }
void Group::srl_resolve(Srl::Context& c) { Shape::srl_resolve(c); c("kids", kids); step(); c("circles", circles); step(); }
static size_t count(Gen& g, int depth) { auto& b = state().budget; size_t n = depth >= 4 ? 0 : g.c.draw(4); if((long)n > b) n = b > 0 ? (size_t)b : 0; b -= (long)n; return n; }
void Group::gen(Gen& g, int d) { Shape::gen(g, d); kids.clear(); circles.clear(); size_t n = count(g, d); for(size_t i = 0; i < n; i++) kids.push_back(make_shape(g, d + 1)); n = count(g, d); for(size_t i = 0; i < n; i++) circles.push_back(make_circle(g, d + 1)); }
bool Group::equal(const Shape& o, Iso& i, const std::string& p) const
{
    if(!Shape::equal(o, i, p)) return false;
    auto& x = dynamic_cast<const Group&>(o);
    if(kids.size() != x.kids.size() || circles.size() != x.circles.size()) return i.no(p, "number of members");
    for(size_t k = 0; k < kids.size(); k++) if(!cmp(kids[k], x.kids[k], i, p + ".kids[" + std::to_string(k) + "]")) return false;
    auto y = x.circles.begin(); for(auto& e : circles) if(!cmp(e, *y++, i, p + ".circles[]")) return false;
    return true;
}
std::string Group::show() const { std::string s = "Group("; for(auto& k : kids) s += (k ? k->show() : "null") + " "; return s + "| " + std::to_string(circles.size()) + ")"; }
void Tagged::srl_resolve(Srl::Context& c) { c("tag", tag); Shape::srl_resolve(c); step(); }
void Tagged::gen(Gen& g, int d) { Shape::gen(g, d); tag = to16(from_utf8(g.text(12))); }
bool Tagged::equal(const Shape& o, Iso& i, const std::string& p) const { if(!Shape::equal(o, i, p)) return false; auto& x = dynamic_cast<const Tagged&>(o); return cmp(tag, x.tag, i, p + ".tag") && cmp(x.pad, (int64_t)0x1234, i, p + ".pad") && cmp(x.pads, std::string("mixin"), i, p + ".pads"); }
void Owner::srl_resolve(Srl::Context& x) { Shape::srl_resolve(x); x("s", s); step(); x("c", c); step(); x("n", n); step(); }
void Owner::gen(Gen& g, int d) { Shape::gen(g, d); delete s; s = nullptr; s = make_shape(g, d + 1).release(); delete c; c = nullptr; c = make_circle(g, d + 1).release(); delete n; n = nullptr; if(g.c.flip()) n = new int((int)g.c.draw(100)); }
bool Owner::equal(const Shape& o, Iso& i, const std::string& p) const
{
    if(!Shape::equal(o, i, p)) return false;
    auto& x = dynamic_cast<const Owner&>(o);
    if(!s != !x.s || !c != !x.c || !n != !x.n) return i.no(p, "null pointer");
    return (!s || s->equal(*x.s, i, p + ".s")) && (!c || c->equal(*x.c, i, p + ".c")) && (!n || cmp(*n, *x.n, i, p + ".n"));
}
std::string Owner::show() const { return "Owner(" + (s ? s->show() : "null") + ", " + (c ? c->show() : "null") + ")"; }
void Plain::srl_resolve(Srl::Context& c) { step(); c("n", n)("s", s); step(); }
void Plain::gen(Gen& g) { n = (int)g.c.draw(1000); s = g.text(10); }
bool Plain::equal(const Plain& o, Iso& i, const std::string& p) const { return cmp(n, o.n, i, p + ".n") && cmp(s, o.s, i, p + ".s"); }

template<class T> static std::shared_ptr<T> pooled(Gen& g, std::vector<std::shared_ptr<T>>& pool, const std::function<std::shared_ptr<T>()>& mk)
{
    if(state().sharing && pool.size() && g.c.chance(1, 2)) return pool[g.c.draw(pool.size())];
    auto p = mk(); pool.push_back(p); return p;
}
struct Pools { std::vector<std::shared_ptr<Shape>> shapes; std::vector<std::shared_ptr<Plain>> plains; std::vector<std::shared_ptr<int>> ints; std::vector<std::shared_ptr<Circle>> circles; };
static Pools& pools() { static thread_local Pools p; return p; }
static std::shared_ptr<Shape> sh(Gen& g, int d) { return pooled<Shape>(g, pools().shapes, [&] { return std::shared_ptr<Shape>(make_shape(g, d)); }); }
static std::shared_ptr<Plain> spl(Gen& g) { return pooled<Plain>(g, pools().plains, [&] { auto p = std::make_shared<Plain>(); p->gen(g); return p; }); }

void Link::srl_resolve(Srl::Context& c) { Shape::srl_resolve(c); c("w", w); step(); c("a", a); step(); c("b", b); step(); }
void Link::gen(Gen& g, int d) { Shape::gen(g, d); a = sh(g, d + 1); b = spl(g); w = a; }
bool Link::equal(const Shape& o, Iso& i, const std::string& p) const
{
    if(!Shape::equal(o, i, p)) return false;
    auto& x = dynamic_cast<const Link&>(o);
    return cmps(w.lock().get(), x.w.lock().get(), i, p + ".w") && cmps(a.get(), x.a.get(), i, p + ".a") && cmps(b.get(), x.b.get(), i, p + ".b");
}
std::string Link::show() const { return "Link(" + (a ? a->show() : "null") + ")"; }
void Virt::srl_resolve(Srl::Context& c) { Shape::srl_resolve(c); c("v", v); step(); }
void Virt::gen(Gen& g, int d) { Shape::gen(g, d); v = (int)g.c.draw(100000); }
bool Virt::equal(const Shape& o, Iso& i, const std::string& p) const { if(!Shape::equal(o, i, p)) return false; return cmp(v, dynamic_cast<const Virt&>(o).v, i, p + ".v"); }
void Animal::srl_resolve(Srl::Context& c) { step(); c("legs", legs); }
void Dog::srl_resolve(Srl::Context& c) { Animal::srl_resolve(c); c("name", name); step(); }

std::unique_ptr<Shape> make_shape(Gen& g, int depth)
{
    auto& b = state().budget; std::unique_ptr<Shape> s;
    size_t k = depth >= 4 || b <= 0 ? g.c.pickl<size_t>({ 0, 1, 2, 3, 4 }) : g.c.draw(8); b--;
    switch(k) { case 0: s.reset(new Shape()); break; case 1: s.reset(new Circle()); break; case 2: s.reset(new Ring()); break; case 3: s.reset(new Tagged()); break; case 4: s.reset(new Virt()); break;
                case 5: s.reset(new Group()); break; case 6: s.reset(new Owner()); break; default: s.reset(state().sharing ? (Shape*)new Link() : new Group()); break; }
    s->gen(g, depth); return s;
}
std::unique_ptr<Circle> make_circle(Gen& g, int d) { std::unique_ptr<Circle> c(g.c.flip() ? new Ring() : new Circle()); c->gen(g, d); return c; }

void forget() { pools() = Pools(); }
void reset(Case& c)
{
    auto& s = state(); s.fault = -1; s.steps = 0; s.budget = c.chance(1, 8) ? 60 : 12; s.order.clear(); s.sharing = true;
    for(int i = 0; i < Holder::Fields; i++) s.order.push_back(i);
    if(c.flip()) for(int i = Holder::Fields; i > 1; i--) std::swap(s.order[i - 1], s.order[c.draw(i)]);
    s.mask = c.chance(1, 3) ? ~0u : (unsigned)(c.draw64() & c.draw64()); if(!(s.mask & ((1u << Holder::Fields) - 1))) s.mask = 1u << c.draw(Holder::Fields);
    pools() = Pools();
}
void Holder::srl_resolve(Srl::Context& c)
{
    for(int i : state().order) {
        if(!(state().mask >> i & 1)) continue;
        step();
        switch(i) {
            case 0: c("u", u); break;   case 1: c("s1", s1); break; case 2: c("s2", s2); break; case 3: c("w", w); break; case 4: c("p1", p1); break; case 5: c("p2", p2); break;
            case 6: c("wp", wp); break; case 7: c("vp", vp); break; case 8: c("raw", raw); break; case 9: c("rawp", rawp); break; case 10: c("vc", vc); break; case 11: c("lp", lp); break;
            case 12: c("mp", mp); break; case 13: c("up", up); break; case 14: c("si", si); break; case 15: c("si2", si2); break; case 16: c("arr", arr); break; case 17: c("pr", pr); break;
            case 18: c("tp", tp); break; case 19: c("vs", vs); break; case 20: c("ms", ms); break; case 21: c("sc", sc); break; case 22: c("raw2", raw2); break; case 23: c("sv", sv); break;
            case 24: c("text", text); c("num", num); c("uvp", uvp); break;
        }
    }
    step();
}
void Holder::gen(Gen& g)
{
    auto& c = g.c; pools() = Pools();
    u = make_shape(g, 0); s1 = sh(g, 0); s2 = sh(g, 0); w = c.flip() ? s1 : s2; p1 = spl(g); p2 = spl(g); wp = c.flip() ? p1 : p2;
    vp.clear(); size_t n = c.draw(4); for(size_t i = 0; i < n; i++) vp.push_back(spl(g));
    delete raw; raw = nullptr; raw = make_shape(g, 1).release(); delete rawp; rawp = nullptr; rawp = new Plain(); rawp->gen(g);
    vc.clear(); n = c.draw(4); for(size_t i = 0; i < n; i++) vc.push_back(make_circle(g, 1));
    lp.clear(); n = c.draw(4); for(size_t i = 0; i < n; i++) { lp.emplace_back(); lp.back().gen(g); }
    mp.clear(); n = c.draw(4); for(size_t i = 0; i < n; i++) mp[(int)c.draw(50)].gen(g);
    up.reset(new Plain()); up->gen(g); si = std::make_shared<int>((int)c.draw(10)); si2 = c.flip() ? si : std::make_shared<int>((int)c.draw(10));
    for(auto& x : arr) x.gen(g); pr.first.gen(g); pr.second = (int)c.draw(9); std::get<0>(tp) = (int)c.draw(9); std::get<1>(tp).gen(g);
    vs.clear(); n = c.draw(4); for(size_t i = 0; i < n; i++) vs.push_back(sh(g, 1));
    ms.clear(); n = c.draw(3); for(size_t i = 0; i < n; i++) { auto k = g.ascii(5); ms[k] = sh(g, 1); }
    sc = std::shared_ptr<Circle>(make_circle(g, 1)); delete raw2; raw2 = nullptr; raw2 = make_shape(g, 1).release();
    sv = std::make_shared<std::vector<int>>(c.draw(5), 3); text = g.text(20); num = (int)c.draw(1000);
    uvp.reset(new std::vector<Plain>(c.draw(3))); for(auto& x : *uvp) x.gen(g);
    // a weak pointer is restored only while something else refers to the object
    if(!(state().mask >> 1 & 1) || !(state().mask >> 2 & 1)) { if(state().mask >> 1 & 1) w = s1; else if(state().mask >> 2 & 1) w = s2; else state().mask &= ~(1u << 3); }
    if(!(state().mask >> 4 & 1) || !(state().mask >> 5 & 1)) { if(state().mask >> 4 & 1) wp = p1; else if(state().mask >> 5 & 1) wp = p2; else state().mask &= ~(1u << 6); }
    pools() = Pools();
}
bool Holder::equal(const Holder& o, Iso& q) const
{
    auto plains = [&](auto& a, auto& b, const char* n) { if(a.size() != b.size()) return q.no(n, "size"); auto y = b.begin(); for(auto& x : a) if(!x.equal(*y++, q, n)) return false; return true; };
    for(int i : state().order) {
        if(!(state().mask >> i & 1)) continue;
        bool ok = true;
        switch(i) {
            case 0: ok = cmp(u, o.u, q, "u"); break;
            case 1: ok = cmps(s1.get(), o.s1.get(), q, "s1"); break; case 2: ok = cmps(s2.get(), o.s2.get(), q, "s2"); break; case 3: ok = cmps(w.lock().get(), o.w.lock().get(), q, "w"); break;
            case 4: ok = cmps(p1.get(), o.p1.get(), q, "p1"); break; case 5: ok = cmps(p2.get(), o.p2.get(), q, "p2"); break; case 6: ok = cmps(wp.lock().get(), o.wp.lock().get(), q, "wp"); break;
            case 7: if(vp.size() != o.vp.size()) return q.no("vp", "size"); for(size_t k = 0; k < vp.size(); k++) ok &= cmps(vp[k].get(), o.vp[k].get(), q, "vp[" + std::to_string(k) + "]"); break;
            case 8: case 22: { auto *a = i == 8 ? raw : raw2, *b = i == 8 ? o.raw : o.raw2; if(!a != !b) return q.no("raw", "null"); ok = !a || a->equal(*b, q, i == 8 ? "raw" : "raw2"); break; }
            case 9: if(!rawp != !o.rawp) return q.no("rawp", "null"); ok = !rawp || rawp->equal(*o.rawp, q, "rawp"); break;
            case 10: if(vc.size() != o.vc.size()) return q.no("vc", "size"); for(size_t k = 0; k < vc.size(); k++) ok &= cmp(vc[k], o.vc[k], q, "vc[]"); break;
            case 11: ok = plains(lp, o.lp, "lp"); break;
            case 12: if(mp.size() != o.mp.size()) return q.no("mp", "size"); { auto y = o.mp.begin(); for(auto& x : mp) { ok &= cmp(x.first, y->first, q, "mp key") && x.second.equal(y->second, q, "mp"); ++y; } } break;
            case 13: if(!up != !o.up) return q.no("up", "null"); ok = !up || up->equal(*o.up, q, "up"); break;
            case 14: ok = cmps(si.get(), o.si.get(), q, "si"); break; case 15: ok = cmps(si2.get(), o.si2.get(), q, "si2"); break;
            case 16: ok = arr[0].equal(o.arr[0], q, "arr[0]") && arr[1].equal(o.arr[1], q, "arr[1]"); break;
            case 17: ok = pr.first.equal(o.pr.first, q, "pr") && cmp(pr.second, o.pr.second, q, "pr.second"); break;
            case 18: ok = std::get<1>(tp).equal(std::get<1>(o.tp), q, "tp") && cmp(std::get<0>(tp), std::get<0>(o.tp), q, "tp<0>"); break;
            case 19: if(vs.size() != o.vs.size()) return q.no("vs", "size"); for(size_t k = 0; k < vs.size(); k++) ok &= cmps(vs[k].get(), o.vs[k].get(), q, "vs[" + std::to_string(k) + "]"); break;
            case 20: if(ms.size() != o.ms.size()) return q.no("ms", "size"); { auto y = o.ms.begin(); for(auto& x : ms) { ok &= cmp(x.first, y->first, q, "ms key") && cmps(x.second.get(), y->second.get(), q, "ms"); ++y; } } break;
            case 21: ok = cmps(sc.get(), o.sc.get(), q, "sc"); break;
            case 23: ok = cmps(sv.get(), o.sv.get(), q, "sv"); break;
            case 24: if(!uvp != !o.uvp) return q.no("uvp", "null"); ok = cmp(text, o.text, q, "text") && cmp(num, o.num, q, "num") && (!uvp || plains(*uvp, *o.uvp, "uvp")); break;
        }
        if(!ok) return false;
    }
    return true;
}
std::string Holder::show() const
{
    static const char* const nm[Fields] = { "u", "s1", "s2", "w", "p1", "p2", "wp", "vp", "raw", "rawp", "vc", "lp", "mp", "up", "si", "si2", "arr", "pr", "tp", "vs", "ms", "sc", "raw2", "sv", "text" };
    std::string s; for(int i : state().order) if(state().mask >> i & 1) { s += nm[i]; s += ' '; if(i == 0 && u) s += u->show() + " "; if(i == 1 && s1) s += s1->show() + " "; if(i == 8 && raw) s += raw->show() + " "; }
    return s;
}
}
