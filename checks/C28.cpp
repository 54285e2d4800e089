// C28: a document owns its content; references into it and results taken from it stay valid.
#include "dyn.hpp"
#include "names.hpp"
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C28", "histories of inserts (strings, wraps, binaries, containers, objects, nodes and values of the same and of other trees), loads, removals and moves over several trees, all sources being overwritten and freed "
         "right after the call; pointers to every value, node and name are recorded and followed, results are kept until everything is destroyed; non-trivial: something was inserted or removed while references to a "
         "node's other fields were held, and a source was an item of another tree or a buffer")

namespace {
struct V { Bytes name; Doc d; Srl::Value* p = nullptr; const Srl::String* n = nullptr; };
struct N { Bytes name; Kind k = Obj; std::list<V> v; std::list<N> n; Srl::Node* p = nullptr; const Srl::String* s = nullptr; };
std::string why;
N from(const Doc& d, const Bytes& name = "") { N r; r.name = name; r.k = d.k; for(auto& m : d.m) { if(m.second.scope()) r.n.push_back(from(m.second, m.first)); else { V v; v.name = m.first; v.d = m.second; r.v.push_back(v); } } return r; }
Doc to(const N& n) { Doc d; d.k = n.k; for(auto& v : n.v) d.m.emplace_back(v.name, v.d); for(auto& x : n.n) d.m.emplace_back(x.name, to(x)); return d; }
size_t weight(const N& n) { size_t r = 1 + n.v.size(); for(auto& x : n.n) r += weight(x); return r; }
size_t height(const N& n) { size_t r = 0; for(auto& x : n.n) r = std::max(r, height(x)); return r + 1; }
void record(Srl::Node& s, N& m)
{
    m.p = &s; m.s = &s.name(); size_t i = 0; for(auto& v : m.v) { v.p = &s.value(i++); v.n = &v.p->name(); } i = 0; for(auto& x : m.n) record(s.node(i++), x);
}
// through the recorded references only (deep: also that they are what the accessors give)
void follow(Case& c, N& m, bool deep, const char* when)
{
    auto& s = *m.p;
    CHECK(c, (s.type() == Srl::Type::Array) == (m.k == Arr) && s.num_values() == m.v.size() && s.num_nodes() == m.n.size(), when << ": node " << quote(m.name) << " behind a reference has changed: " << s.num_values() << " values, " << s.num_nodes() << " nodes instead of " << m.v.size() << ", " << m.n.size());
    CHECK(c, &s.name() == m.s && m.s->unwrap() == m.name, when << ": name of node " << quote(m.name) << " is " << quote(m.s->unwrap()));
    size_t i = 0;
    for(auto& v : m.v) {
        CHECK(c, equal(v.d, dump(*v.p), &why), when << ": value " << quote(v.name) << " behind a reference: " << why);
        CHECK(c, v.n->unwrap() == v.name && &v.p->name() == v.n, when << ": name of value " << quote(v.name) << " is " << quote(v.n->unwrap()));
        if(deep) CHECK(c, &s.value(i) == v.p, when << ": value " << i << " " << quote(v.name) << " isn't at its place any more");
        i++;
    }
    i = 0; for(auto& x : m.n) { if(deep) CHECK(c, &s.node(i) == x.p, when << ": node " << i << " " << quote(x.name) << " isn't at its place any more"); follow(c, x, deep, when); i++; }
}
// a copy in a block of its own, overwritten and freed at the end of the scope
template<class T> struct Lent { T* p; size_t n; Lent(const T* s, size_t n_) : p(new T[n_ + 1]), n(n_) { std::copy(s, s + n, p); p[n] = 0; } ~Lent() { for(size_t i = 0; i <= n; i++) p[i] = (T)0x55; delete[] p; } };
template<class S> void spoil(S& s) { for(auto& x : s) x = (typename S::value_type)0x55; }
template<class F> void lent_name(Case& c, const Bytes& b, F&& fn)
{
    bool ok = false; auto cp = from_utf8(b, &ok);
    switch(ok ? c.draw(4) : c.draw(2)) {
        case 0: { std::string s = b; fn(Srl::String(s)); spoil(s); break; }
        case 1: { Lent<char> l(b.data(), b.size()); fn(Srl::String((const uint8_t*)l.p, l.n, Srl::Encoding::UTF8)); break; }
        case 2: { auto s = to16(cp); fn(Srl::String(s)); spoil(s); break; }
        default: { auto s = to32(cp); fn(Srl::String(s)); spoil(s); break; }
    }
}
// inserts a scalar from a source which doesn't live longer than the call
void lend(Case& c, Srl::Node& s, const Bytes& nm, const Doc& d)
{
    lent_name(c, nm, [&](const Srl::String& q) {
        if(d.k == Str) {
            bool ok = false; auto cp = from_utf8(d.s, &ok); bool z = d.s.find('\0') != Bytes::npos;
            switch(ok ? c.draw(8) : c.draw(3)) {
                case 0: { std::string x = d.s; s.insert(q, x); spoil(x); break; }
                case 1: { Lent<char> l(d.s.data(), d.s.size()); s.insert(q, Srl::String((const uint8_t*)l.p, l.n, Srl::Encoding::UTF8)); break; }
                case 2: { Lent<uint8_t> l((const uint8_t*)d.s.data(), d.s.size()); s.insert(q, Srl::Value(Srl::Lib::MemBlock(l.p, l.n), Srl::Encoding::UTF8)); break; }
                case 3: { if(z) { s.insert(q, d.s); break; } Lent<char> l(d.s.data(), d.s.size()); const char* p = l.p; s.insert(q, p); break; }
                case 4: { auto x = to16(cp); s.insert(q, x); spoil(x); break; }
                case 5: { auto x = to32(cp); s.insert(q, Srl::String(x)); spoil(x); break; }
                case 6: { auto x = to16(cp); if(z) { s.insert(q, x); break; } Lent<char16_t> l(x.data(), x.size()); const char16_t* p = l.p; s.insert(q, p); break; }
                default: { char x[64]; if(z || d.s.size() > 63) { s.insert(q, d.s); break; } memset(x, 0, sizeof x); memcpy(x, d.s.data(), d.s.size()); s.insert(q, x); memset(x, 0x55, sizeof x); break; }
            }
        } else if(d.k == Bin) {
            switch(c.draw(4)) {
                case 0: { Lent<uint8_t> l((const uint8_t*)d.s.data(), d.s.size()); s.insert(q, Srl::BitWrap(l.p, l.n)); break; }
                case 1: { std::vector<uint8_t> x(d.s.begin(), d.s.end()); s.insert(q, Srl::VecWrap<uint8_t>(x)); spoil(x); break; }
                case 2: { Srl::Bytes x(std::vector<uint8_t>(d.s.begin(), d.s.end())); s.insert(q, x); break; }
                default: { Lent<uint8_t> l((const uint8_t*)d.s.data(), d.s.size()); s.insert(q, Srl::Value(Srl::Lib::MemBlock(l.p, l.n), Srl::Type::Binary)); break; }
            }
        } else { Doc o = Doc::obj(); o.m.emplace_back(nm, d); build(s, o, &c); }
    });
}
Bytes raw(const Srl::Bytes& b) { auto x = Srl::Bytes(b).extract(); return Bytes(x.begin(), x.end()); }
struct Mixed {
    std::string s; std::vector<std::string> l; Srl::Bytes b; std::u16string w; std::unique_ptr<std::string> u; std::map<std::string, std::string> m;
    template<class C> void res(C& c) { c("s", s)("l", l)("b", b)("w", w)("u", u)("m", m); }
    void srl_resolve(Srl::Context& c) { res(c); }
    bool operator==(const Mixed& o) const { return s == o.s && l == o.l && raw(b) == raw(o.b) && w == o.w && !u == !o.u && (!u || *u == *o.u) && m == o.m; }
};
void gen(Case& c, Gen& g, Mixed& x)
{
    x.s = g.text(40); for(size_t n = c.draw(4); n--;) x.l.push_back(g.text(30)); auto b = g.blob(40); x.b = Srl::Bytes(std::vector<uint8_t>(b.begin(), b.end())); x.w = to16(from_utf8(g.text(20))); if(c.flip()) x.u.reset(new std::string(g.text(30))); for(size_t n = c.draw(4); n--;) x.m[g.text(12)] = g.text(20);
}
Bytes some_name(Case& c, Gen& g)
{
    static const Bytes pool[] = { "a", "", "b", "name", collide[0], collide[1], collide[2], collide[3], "\xC3\xA4", "a longer field name than the local store", "aa", "eight ch", "nine char" };
    return c.chance(1, 4) ? g.name() : pool[c.draw(sizeof pool / sizeof *pool)];
}
}

PBT_TEST(histories, 120000, 6000000)
{
    Gen g(c); g.dup_names = true; g.big = c.chance(1, 40); g.max_depth = 3; g.nonfinite = false;
    struct One { std::unique_ptr<Srl::Tree> t; N m; };
    std::vector<One> ts(1 + c.draw(3)); std::vector<std::function<std::string()>> kept;
    for(auto& o : ts) { o.t.reset(new Srl::Tree()); record(o.t->root(), o.m); }
    auto pick = [&](One& o) { N* m = &o.m; while(m->n.size() && c.chance(2, 3)) m = &*std::next(m->n.begin(), c.draw(m->n.size())); return m; };
    bool held = false, foreign = false; size_t ops = 3 + c.size(50);
    for(size_t k = 0; k < ops; k++) {
        auto& o = c.pick(ts); N* m = pick(o); Bytes nm = some_name(c, g); bool room = weight(o.m) < 300 && height(o.m) < 20;
        auto added_v = [&](const Doc& d) { V v; v.name = nm; v.d = d; v.p = &m->p->value(m->v.size()); v.n = &v.p->name(); held |= m->v.size() + m->n.size() > 1; m->v.push_back(v); };
        auto added_n = [&](const N& n) { held |= m->v.size() + m->n.size() > 1; m->n.push_back(n); m->n.back().name = nm; record(m->p->node(m->n.size() - 1), m->n.back()); };
        switch(c.weighted({ 20, 6, 5, 5, 5, 5, 8, 8, 3, 3, 2, 1, 8, 3 })) {
            case 0: { Doc d = c.weighted({ 2, 1, 1 }) == 0 ? Doc::str(g.text(60)) : c.flip() ? Doc::bin(g.blob(60)) : g.scalar(); c.note("insert ", quote(nm), " ", show(d, 200)); lend(c, *m->p, nm, d); added_v(d); foreign = true; break; }
            case 1: { if(!room) break; Doc d = g.tree(2, 10); c.note("insert scope ", quote(nm), " ", show(d, 200)); { Doc w = Doc::obj(); w.m.emplace_back(nm, d); build(*m->p, w, &c); } added_n(from(d)); break; }
            case 2: { if(!room) break; auto x = std::make_unique<std::vector<std::string>>(); Doc d = Doc::arr(); for(size_t i = c.draw(6); i--;) { x->push_back(g.text(40)); d.m.emplace_back("", Doc::str(x->back())); }
                c.note("insert list ", quote(nm), " ", show(d, 200)); lent_name(c, nm, [&](const Srl::String& q) { m->p->insert(q, *x); }); for(auto& e : *x) spoil(e); x.reset(); added_n(from(d)); foreign = true; break; }
            case 3: { if(!room) break; auto x = std::make_unique<Mixed>(); Mixed y; gen(c, g, *x); c.note("insert object ", quote(nm)); Doc d; { Srl::Tree t; t.load_object(*x); d = dump(t.root()); t.root().paste(y); CHECK(c, *x == y, "object differs after load_object + paste"); }
                lent_name(c, nm, [&](const Srl::String& q) { m->p->insert(q, *x); }); spoil(x->s); spoil(x->w); x.reset(); added_n(from(d)); foreign = true; break; }
            case 4: { // a node of any tree
                auto& o2 = c.pick(ts); N* m2 = pick(o2); if(weight(*m2) + weight(o.m) > 400 || height(*m2) + height(o.m) > 25) break; c.note("insert node ", quote(m2->name), " as ", quote(nm)); N cp = *m2;
                lent_name(c, nm, [&](const Srl::String& q) { m->p->insert(q, *m2->p); }); added_n(cp); foreign |= &o != &o2; break; }
            case 5: { auto& o2 = c.pick(ts); N* m2 = pick(o2); if(m2->v.empty()) break; auto& v = *std::next(m2->v.begin(), c.draw(m2->v.size())); c.note("insert value ", quote(v.name), " as ", quote(nm)); Doc d = v.d; lent_name(c, nm, [&](const Srl::String& q) { m->p->insert(q, *v.p); }); added_v(d); foreign |= &o != &o2; break; }
            case 6: { if(m->v.empty()) break; size_t i = c.draw(m->v.size()); auto it = std::next(m->v.begin(), i); c.note("remove value ", i); held |= m->v.size() > 2; if(c.flip()) m->p->remove_value(i); else m->p->remove_value(it->p); m->v.erase(it); break; }
            case 7: { if(m->n.empty()) break; size_t i = c.draw(m->n.size()); auto it = std::next(m->n.begin(), i); c.note("remove node ", i); held |= m->n.size() > 2; if(c.flip()) m->p->remove_node(i); else m->p->remove_node(it->p); m->n.erase(it); break; }
            case 8: { // move
                auto& o2 = c.pick(ts); if(&o2 == &o) { std::unique_ptr<Srl::Tree> x(new Srl::Tree(std::move(*o.t))); o.t.swap(x); c.note("move construct"); CHECK(c, &o.t->root() == o.m.p, "root isn't at its place after the tree was moved"); }
                else { c.note("move assign"); *o2.t = std::move(*o.t); o2.m = std::move(o.m); CHECK(c, &o2.t->root() == o2.m.p, "root isn't at its place after the tree was moved"); o.t.reset(new Srl::Tree()); o.m = N(); record(o.t->root(), o.m); }
                break; }
            case 9: { // a fresh document from a source which goes away
                auto& o2 = c.pick(ts); Fmt f = c.flip() ? MP : SR; Bytes b = c.flip() ? write(*o2.t, f) : encode(f, g.tree()); c.note("load"); Doc d = decode(f, b); load(*o.t, f, b, pick_via(c), pick_chunk(c)); spoil(b); o.m = from(d); record(o.t->root(), o.m); foreign = true; break; }
            case 10: { auto x = std::make_unique<Mixed>(); gen(c, g, *x); c.note("load_object"); o.t->load_object(*x); spoil(x->s); Doc d = dump(o.t->root()); Mixed y; o.t->root().paste(y); spoil(y.s); y.s = x->s; // (the expected content is the document's own, C01 has the rest)
                x.reset(); { N n = from(d); o.m = n; record(o.t->root(), o.m); } break; }
            case 11: { c.note("destroy"); o.t.reset(new Srl::Tree()); o.m = N(); record(o.t->root(), o.m); break; }
            case 12: { // results
                if(m->v.size() && c.flip()) { auto& v = *std::next(m->v.begin(), c.draw(m->v.size())); Bytes s = v.d.s;
                    if(v.d.k == Str) switch(c.draw(3)) {
                        case 0: { auto r = std::make_shared<std::string>(v.p->unwrap<std::string>()); kept.push_back([r, s]() -> std::string { return *r == s ? "" : "string"; }); break; }
                        case 1: { auto r = std::make_shared<std::u32string>(v.p->unwrap<std::u32string>()); auto w = *r; kept.push_back([r, w]() -> std::string { return *r == w ? "" : "u32string"; }); break; }
                        default: { auto r = std::make_shared<std::string>(); m->p->paste_field((size_t)(std::find_if(m->v.begin(), m->v.end(), [&](V& q) { return &q == &v; }) == m->v.end() ? 0 : std::distance(m->v.begin(), std::find_if(m->v.begin(), m->v.end(), [&](V& q) { return &q == &v; }))), *r); kept.push_back([r, s]() -> std::string { return *r == s ? "" : "pasted string"; }); break; }
                    } else if(v.d.k == Bin) { auto r = std::make_shared<Srl::Bytes>(v.p->unwrap<Srl::Bytes>()); kept.push_back([r, s]() -> std::string { return raw(*r) == s ? "" : "Bytes"; }); }
                } else { bool strs = m->k == Arr && m->n.empty(); std::vector<std::string> want; for(auto& v : m->v) { strs &= v.d.k == Str; want.push_back(v.d.s); }
                    if(strs) { auto r = std::make_shared<std::vector<std::string>>(m->p->unwrap<std::vector<std::string>>()); kept.push_back([r, want]() -> std::string { return *r == want ? "" : "vector of strings"; }); }
                    else { Fmt f = c.flip() ? MP : SR; auto r = std::make_shared<std::vector<uint8_t>>(with(f, [&](auto& p) { return m->p->to_source(p); })); Doc d = norm(to(*m)); kept.push_back([r, d, f]() -> std::string { return equal(norm(decode(f, str(*r))), d, &why) ? "" : "written document: " + why; }); } }
                break; }
            default: { auto x = std::make_shared<Mixed>(), y = std::make_shared<Mixed>(); gen(c, g, *x); { Srl::Tree t; t.root().insert("x", *x); auto u = t.root().unwrap_field<Mixed>("x"); *y = std::move(u); } kept.push_back([x, y]() -> std::string { return *x == *y ? "" : "object"; }); break; }
        }
        if(c.chance(1, 3)) for(auto& q : ts) follow(c, q.m, c.flip(), "after the operation");
    }
    c.nontrivial(held && foreign);
    for(auto& q : ts) follow(c, q.m, true, "at the end");
    for(auto& q : ts) { Fmt f = c.flip() ? MP : SR; auto b = write(*q.t, f); CHECK(c, equal(norm(decode(f, b)), norm(to(q.m)), &why), "document written at the end: " << why); }
    // one tree after the other goes
    while(ts.size()) { ts.erase(ts.begin() + c.draw(ts.size())); for(auto& q : ts) follow(c, q.m, true, "after another tree was destroyed"); }
    for(auto& f : kept) { auto m = f(); CHECK(c, m.empty(), "result taken earlier has changed: " << m); }
}

// objects outlive the source, the parser and the tree they came from, and documents and bytes the object
PBT_TEST(objects, 10000, 400000)
{
    Gen g(c); g.negzero = false; dyn::Opt o; dyn::draw_schema(g, o); auto a = std::make_unique<Dyn>(); a->gen(g); Dyn keep(*a); Fmt f = pick_fmt(c); size_t how = c.draw(4); Dyn r; c.note(dyn::show_schema(), name(f), " route ", how); dyn::Cmp cm;
    auto chunk = pick_chunk(c); auto via = pick_via(c); std::vector<uint8_t> bytes;
    { auto t = std::make_unique<Srl::Tree>();
      if(how == 3) { t->load_object(*a); a.reset(); Dyn* d = &r; t->root().paste(*d); }
      else {
          with(f, [&](auto& p) { bytes = t->store(*a, p); }); a.reset(); t.reset(new Srl::Tree()); Bytes b = str(bytes); spoil(bytes); auto m = std::string();
          source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { switch(how) { case 0: t->restore(r, s, p); break; case 1: t->load_source(s, p); break; default: { t->restore(r, s, p); } } }); });
          if(how == 1) t->root().paste(r);
      }
    }
    c.nontrivial(nodes(keep.doc()) > 3);
    CHECK(c, keep.equal(r, cm, "obj"), "after source, parser, tree and stored object are gone: " << cm.why);
}
