// C13: the document editing API behaves like a simple tree of fields.
#include "names.hpp"
using namespace doc; using namespace br;
PBT_MAIN("C13", "random histories of inserts (values, scopes, containers, nodes of the same and other trees, standalone nodes), removals (name, index, pointer), loads, clears and moves over several trees, each step and "
         "finally every accessor compared with a plain ordered-list model; names collide under the library's hash, repeat, are empty, long or in other encodings; non-trivial: something was removed and a later lookup "
         "concerned a duplicate, colliding or copied field")

namespace {
struct MN { Bytes name; Kind k = Obj; std::vector<std::pair<Bytes, Doc>> v; std::list<MN> n; };
MN from(const Doc& d, const Bytes& name = "")
{
    MN r; r.name = name; r.k = d.k;
    for(auto& m : d.m) { if(m.second.scope()) r.n.push_back(from(m.second, m.first)); else r.v.push_back(m); }
    return r;
}
Doc to(const MN& n) { Doc d; d.k = n.k; for(auto& v : n.v) d.m.push_back(v); for(auto& x : n.n) d.m.emplace_back(x.name, to(x)); return d; }
MN& child(MN& n, size_t i) { return *std::next(n.n.begin(), i); }
size_t count(const MN& n) { size_t r = 1; for(auto& x : n.n) r += count(x); return r; }
size_t weight(const MN& n) { size_t r = 1 + n.v.size(); for(auto& x : n.n) r += weight(x); return r; }
size_t height(const MN& n) { size_t r = 0; for(auto& x : n.n) r = std::max(r, height(x)); return r + 1; }
void pre(MN& n, std::vector<MN*>& o) { for(auto& x : n.n) { o.push_back(&x); pre(x, o); } }

Bytes some_name(Case& c, Gen& g)
{
    static const Bytes pool[] = { "a", "", "b", "name", collide[0], collide[1], collide[2], collide[3], "\xC3\xA4", "\xE6\x97\xA5\xE6\x9C\xAC", "a longer field name than the local store", Bytes("a\0b", 3), Bytes("a\0", 2), "aa", "\xF0\x9F\x98\x80" };
    if(c.chance(1, 10)) return g.name();
    return pool[c.draw(sizeof pool / sizeof *pool)];
}
std::string why;
bool same(const Doc& a, const Srl::Value& v) { return equal(a, dump(v), &why); }

// compares a node with its model; exact: names of elements of arrays
void verify(Case& c, Srl::Node& s, MN& m, const char* when)
{
    CHECK(c, (s.type() == Srl::Type::Array) == (m.k == Arr), when << ": type of node " << quote(m.name));
    CHECK(c, s.name().unwrap() == m.name, when << ": name " << quote(s.name().unwrap()) << " instead of " << quote(m.name));
    CHECK(c, s.num_values() == m.v.size(), when << ": node " << quote(m.name) << " has " << s.num_values() << " values instead of " << m.v.size());
    CHECK(c, s.num_nodes() == m.n.size(), when << ": node " << quote(m.name) << " has " << s.num_nodes() << " nodes instead of " << m.n.size());
    size_t i = 0;
    s.foreach_value([&](Srl::Value& v) {
        CHECK(c, i < m.v.size(), when << ": too many values visited");
        CHECK(c, v.name().unwrap() == m.v[i].first, when << ": value " << i << " is named " << quote(v.name().unwrap()) << " instead of " << quote(m.v[i].first));
        CHECK(c, same(m.v[i].second, v), when << ": value " << i << " " << quote(m.v[i].first) << ": " << why); i++; });
    CHECK(c, i == m.v.size(), when << ": too few values visited");
    auto it = m.n.begin();
    s.foreach_node([&](Srl::Node& n) { CHECK(c, it != m.n.end(), when << ": too many nodes visited"); verify(c, n, *it, when); ++it; });
    CHECK(c, it == m.n.end(), when << ": too few nodes visited");
}
// all lookups of a node for one name / index
void look(Case& c, Srl::Node& s, MN& m, const Bytes& nm)
{
    size_t vi = 0, ni = 0; while(vi < m.v.size() && m.v[vi].first != nm) vi++; while(ni < m.n.size() && child(m, ni).name != nm) ni++;
    bool hv = vi < m.v.size(), hn = ni < m.n.size();
    named(c, nm, [&](const Srl::String& q) {
        CHECK(c, s.has_value(q) == hv, "has_value " << quote(nm) << " is " << !hv);
        CHECK(c, s.has_node(q) == hn, "has_node " << quote(nm) << " is " << !hn);
        Srl::Value* v = nullptr; auto e = thrown([&] { v = &s.value(q); });
        CHECK(c, e.empty() == hv, "value(" << quote(nm) << ") " << (hv ? "throws " + e : "doesn't throw"));
        if(hv) CHECK(c, v == &s.value(vi) && v->name().unwrap() == nm && same(m.v[vi].second, *v), "value(" << quote(nm) << ") isn't the first of that name: " << why);
        Srl::Node* n = nullptr; e = thrown([&] { n = &s.node(q); });
        CHECK(c, e.empty() == hn, "node(" << quote(nm) << ") " << (hn ? "throws " + e : "doesn't throw"));
        if(hn) CHECK(c, n == &s.node(ni), "node(" << quote(nm) << ") isn't the first of that name");
        auto un = [&](const char* how, Srl::Union u) {
            if(hv) CHECK(c, u.is_value() && !u.is_node() && u.value() == v, how << "(" << quote(nm) << ") isn't the value of that name");
            else CHECK(c, u.is_node() && !u.is_value() && u.node() == n, how << "(" << quote(nm) << ") isn't the node of that name");
        };
        e = thrown([&] { un("get", s.get(q)); un("operator[]", s[q]); un("try_get", *s.try_get(q)); });
        CHECK(c, (hv || hn) ? e.empty() : !e.empty(), "get(" << quote(nm) << "): " << e);
        if(!hv && !hn) { CHECK(c, !s.try_get(q), "try_get of a missing name gives something"); CHECK(c, !thrown([&] { s.get(q); }).empty() && !thrown([&] { s[q]; }).empty(), "get of a missing name doesn't throw"); }
        // find
        std::vector<Srl::Node*> wn; std::vector<Srl::Value*> wv;
        bool rec = c.flip();
        std::function<void(Srl::Node&, MN&)> nodes = [&](Srl::Node& x, MN& y) { size_t k = 0; for(auto& z : y.n) { auto& sn = x.node(k++); if(z.name == nm) wn.push_back(&sn); if(rec) nodes(sn, z); } };
        auto vals = [&](Srl::Node& x, MN& y) { for(size_t k = 0; k < y.v.size(); k++) if(y.v[k].first == nm) wv.push_back(&x.value(k)); };
        std::function<void(Srl::Node&, MN&)> deep = [&](Srl::Node& x, MN& y) { size_t k = 0; for(auto& z : y.n) { auto& sn = x.node(k++); vals(sn, z); deep(sn, z); } };
        nodes(s, m); vals(s, m); if(rec) deep(s, m);
        auto fn = s.find_nodes(q, rec); auto fv = s.find_values(q, rec);
        CHECK(c, std::vector<Srl::Node*>(fn.begin(), fn.end()) == wn, "find_nodes(" << quote(nm) << ", " << rec << ") gives " << fn.size() << " nodes, expected " << wn.size() << " (or another order)");
        CHECK(c, std::vector<Srl::Value*>(fv.begin(), fv.end()) == wv, "find_values(" << quote(nm) << ", " << rec << ") gives " << fv.size() << " values, expected " << wv.size() << " (or another order)");
        // typed access by name
        if(hv && m.v[vi].second.k == Int) {
            auto& d = m.v[vi].second; bool big = d.i > INT64_MAX;
            CHECK(c, big ? (__int128)s.unwrap_field<uint64_t>(q) == d.i : (__int128)s.unwrap_field<int64_t>(q) == d.i, "unwrap_field(" << quote(nm) << ")");
        }
        if(hv && m.v[vi].second.k == Str) { std::string o = "other"; s.paste_field(q, o); CHECK(c, o == m.v[vi].second.s, "paste_field(" << quote(nm) << ") gives " << quote(o)); }
        if(!hv) CHECK(c, !thrown([&] { s.unwrap_field<std::string>(q); }).empty(), "unwrap_field of a missing value doesn't throw");
    });
}
void look(Case& c, Srl::Node& s, MN& m, size_t i)
{
    bool hv = i < m.v.size(), hn = i < m.n.size();
    CHECK(c, thrown([&] { s.value(i); }).empty() == hv, "value(" << i << ") of " << m.v.size());
    CHECK(c, thrown([&] { s.node(i); }).empty() == hn, "node(" << i << ") of " << m.n.size());
    if(hv) CHECK(c, same(m.v[i].second, s.value(i)) && s.value(i).name().unwrap() == m.v[i].first, "value(" << i << ") is another one: " << why);
    if(hn) CHECK(c, s.node(i).name().unwrap() == child(m, i).name, "node(" << i << ") is another one");
    auto e = thrown([&] { auto u = s.get(i); if(hn) { CHECK(c, u.is_node() && u.node() == &s.node(i), "get(" << i << ") isn't the node"); } else CHECK(c, u.is_value() && u.value() == &s.value(i), "get(" << i << ") isn't the value"); });
    CHECK(c, e.empty() == (hn || hv), "get(" << i << ") of " << m.n.size() << " nodes, " << m.v.size() << " values: " << e);
    CHECK(c, !!s.try_get(i) == (hn || hv), "try_get(" << i << ")");
    if(hv && m.v[i].second.k == Str) CHECK(c, s.unwrap_field<std::string>(i) == m.v[i].second.s, "unwrap_field(" << i << ")");
}
void lists(Case& c, Srl::Node& s, MN& m)
{
    auto n1 = s.all_nodes(false), n2 = s.all_nodes(true); auto v1 = s.all_values(false), v2 = s.all_values(true);
    CHECK(c, n1.size() == m.n.size() && v1.size() == m.v.size(), "all_nodes/all_values");
    std::vector<MN*> p; pre(m, p); CHECK(c, n2.size() == p.size(), "all_nodes(recursive) gives " << n2.size() << " of " << p.size());
    size_t i = 0; for(auto* n : n2) { CHECK(c, n->name().unwrap() == p[i]->name && n->num_values() == p[i]->v.size(), "all_nodes(recursive): element " << i); i++; }
    std::vector<std::pair<Bytes, Doc>> vs = m.v; for(auto* x : p) for(auto& v : x->v) vs.push_back(v);
    CHECK(c, v2.size() == vs.size(), "all_values(recursive) gives " << v2.size() << " of " << vs.size());
    i = 0; for(auto* v : v2) { CHECK(c, v->name().unwrap() == vs[i].first && same(vs[i].second, *v), "all_values(recursive): element " << i << " " << why); i++; }
    i = 0; for(auto* n : n1) CHECK(c, n == &s.node(i++), "all_nodes"); i = 0; for(auto* v : v1) CHECK(c, v == &s.value(i++), "all_values");
}
}

PBT_TEST(histories, 100000, 5000000)
{
    Gen g(c); g.dup_names = true; g.big = false; g.max_depth = 3;
    struct One { std::unique_ptr<Srl::Tree> t; MN m; };
    std::vector<One> ts(1 + c.draw(3));
    for(auto& o : ts) {
        Doc d = c.flip() ? Doc::obj() : g.tree(); o.m = from(d);
        o.t.reset(new Srl::Tree()); make(*o.t, d, &c);
        if(c.chance(1, 3)) { Fmt f = c.flip() ? MP : SR; auto b = write(*o.t, f); load(*o.t, f, b, pick_via(c), pick_chunk(c)); c.label("starts loaded");
            if(d.k == Arr || true) { std::function<void(MN&)> strip = [&](MN& n) { if(n.k == Arr) { for(auto& v : n.v) v.first.clear(); for(auto& x : n.n) x.name.clear(); } for(auto& x : n.n) strip(x); }; strip(o.m); } }
    }
    { auto tp = c.pickl<Srl::Type>({ Srl::Type::Object, Srl::Type::Array, Srl::Type::I32, Srl::Type::String, Srl::Type::Null }); Srl::Tree x(tp); CHECK(c, x.root().type() == (tp == Srl::Type::Array ? Srl::Type::Array : Srl::Type::Object) && x.root().name().size() == 0, "root of a new tree has the type " << (int)x.root().type()); }
    bool removed = false, inter = false;
    // a random node: path from the root
    auto pick = [&](One& o, Srl::Node*& s, MN*& m) { s = &o.t->root(); m = &o.m; while(m->n.size() && c.chance(2, 3)) { size_t i = c.draw(m->n.size()); s = &s->node(i); m = &child(*m, i); } };
    size_t ops = 3 + c.size(60);
    for(size_t n = 0; n < ops; n++) {
        auto& o = c.pick(ts); Srl::Node* s; MN* m; pick(o, s, m);
        Bytes nm = some_name(c, g);
        // prefer names which exist
        if(c.flip() && (m->v.size() + m->n.size())) { size_t i = c.draw(m->v.size() + m->n.size()); nm = i < m->v.size() ? m->v[i].first : child(*m, i - m->v.size()).name; }
        bool room = weight(o.m) < 300 && height(o.m) < 20;
        size_t op = c.weighted({ 14, 6, 5, 4, 6, 3, 3, 4, 4, 4, 4, 4, 4, 1, 2, 14, 4, 3, 2 });
        switch(op) {
            case 0: case 1: { // insert a value / a scope
                Doc d = Doc::obj(); d.m.emplace_back(nm, op == 0 ? g.scalar() : room ? g.tree(1, 8) : Doc::arr());
                c.note("insert ", quote(nm), " ", show(d.m[0].second, 200));
                if(op == 1 && c.chance(1, 4)) { // a wrapped scope which outlives the statement creating it
                    Doc e = d.m[0].second; e.k = Obj; Srl::ScopeWrap w([&e, &c](Srl::Node& x) { build(x, e, &c); }); char fill[256]; memset(fill, (int)n, sizeof fill); asm volatile("" : : "r"(fill) : "memory");
                    for(int k = 1 + (int)c.draw(2); k--;) { named(c, nm, [&](const Srl::String& q) { s->insert(q, w); }); m->n.push_back(from(e, nm)); } break; }
                build(*s, d, &c);
                if(op == 0) m->v.push_back(d.m[0]); else m->n.push_back(from(d.m[0].second, nm));
                break; }
            case 2: { // several at once, chained
                int a = (int)c.draw(100); std::string b = g.text(10); Bytes nm2 = some_name(c, g);
                c.note("insert two ", quote(nm), " ", quote(nm2));
                Srl::Node* r = nullptr; named(c, nm, [&](const Srl::String& q) { named(c, nm2, [&](const Srl::String& q2) { r = &s->insert(q, a, q2, b); }); });
                CHECK(c, r == s, "insert returns another node");
                m->v.emplace_back(nm, Doc::integer(a)); m->v.emplace_back(nm2, Doc::str(b));
                if(c.flip()) { s->insert("x", 1.5).insert("y", true); m->v.emplace_back("x", Doc::flt(1.5)); m->v.emplace_back("y", Doc::boolean(true)); }
                break; }
            case 3: { // list and containers
                c.note("insert list ", quote(nm)); MN l; l.name = nm; l.k = Arr;
                named(c, nm, [&](const Srl::String& q) {
                    switch(c.draw(3)) {
                        case 0: s->insert(q, { 1, 2, 3 }); for(int i = 1; i < 4; i++) l.v.emplace_back("", Doc::integer(i)); break;
                        case 1: { std::vector<std::string> v; size_t k = c.draw(5); for(size_t i = 0; i < k; i++) { v.push_back(g.text(6)); l.v.emplace_back("", Doc::str(v.back())); } s->insert(q, v); break; }
                        default: { std::list<std::vector<int>> v(c.draw(4)); size_t i = 0; for(auto& x : v) { x.assign(c.draw(3), (int)++i); MN e; e.k = Arr; for(auto y : x) e.v.emplace_back("", Doc::integer(y)); l.n.push_back(e); } s->insert(q, v); }
                    } });
                m->n.push_back(l); break; }
            case 4: { // a copy of a node of any tree (also of an ancestor or of the node itself)
                auto& o2 = c.pick(ts); Srl::Node* s2; MN* m2; pick(o2, s2, m2);
                if(weight(*m2) + weight(o.m) > 400 || height(*m2) + height(o.m) > 25) break;
                c.note("insert node ", quote(m2->name), " as ", quote(nm)); MN cp = *m2; cp.name = nm;
                named(c, nm, [&](const Srl::String& q) { s->insert(q, *s2); }); m->n.push_back(cp); inter |= removed; break; }
            case 5: { // a value of another node
                auto& o2 = c.pick(ts); Srl::Node* s2; MN* m2; pick(o2, s2, m2); if(m2->v.empty()) break; size_t i = c.draw(m2->v.size());
                c.note("insert value ", i, " of ", quote(m2->name)); Doc d = m2->v[i].second; named(c, nm, [&](const Srl::String& q) { s->insert(q, s2->value(i)); }); m->v.emplace_back(nm, d); inter |= removed; break; }
            case 6: { // standalone node
                auto& o2 = c.pick(ts); if(!room) break; c.note("insert standalone node as ", quote(nm)); Doc d = g.tree(1, 8); d.k = Obj; Srl::Node nd(*o2.t); build(nd, d, &c); MN x = from(d, nm);
                { MN y = x; y.name.clear(); verify(c, nd, y, "standalone node"); }
                if(c.chance(1, 3)) { Fmt f = c.flip() ? MP : SR; auto b = with(f, [&](auto& p) { return str(nd.to_source(p)); }); CHECK(c, equal(norm(decode(f, b)), norm(d), &why), "to_source of a standalone node: " << why); }
                named(c, nm, [&](const Srl::String& q) { s->insert(q, nd); }); m->n.push_back(x); if(c.flip()) nd.insert("later", 1); break; }
            case 7: { c.note("remove_value ", quote(nm)); named(c, nm, [&](const Srl::String& q) { s->remove_value(q); }); for(size_t i = 0; i < m->v.size(); i++) if(m->v[i].first == nm) { m->v.erase(m->v.begin() + i); removed = true; break; } break; }
            case 8: { c.note("remove_node ", quote(nm)); named(c, nm, [&](const Srl::String& q) { s->remove_node(q); }); for(auto i = m->n.begin(); i != m->n.end(); ++i) if(i->name == nm) { m->n.erase(i); removed = true; break; } break; }
            case 9: { size_t i = c.draw(m->v.size() + 2); c.note("remove_value ", i); s->remove_value(i); if(i < m->v.size()) { m->v.erase(m->v.begin() + i); removed = true; } break; }
            case 10: { size_t i = c.draw(m->n.size() + 2); c.note("remove_node ", i); s->remove_node(i); if(i < m->n.size()) { m->n.erase(std::next(m->n.begin(), i)); removed = true; } break; }
            case 11: { if(c.chance(1, 5)) { Srl::Value other(1); s->remove_value(&other); break; } if(m->v.empty()) break; size_t i = c.draw(m->v.size()); c.note("remove_value pointer ", i); s->remove_value(&s->value(i)); m->v.erase(m->v.begin() + i); removed = true; break; }
            case 12: { if(c.chance(1, 5)) { s->remove_node(s); break; } if(m->n.empty()) break; size_t i = c.draw(m->n.size()); c.note("remove_node pointer ", i); s->remove_node(&s->node(i)); m->n.erase(std::next(m->n.begin(), i)); removed = true; break; }
            case 13: { c.note("clear"); o.t->clear(); Kind k = o.m.k; o.m = MN(); o.m.k = k; removed = true; break; }
            case 14: { auto& o2 = c.pick(ts); if(&o2 == &o) { std::unique_ptr<Srl::Tree> x(new Srl::Tree(std::move(*o.t))); o.t.swap(x); c.note("move construct"); } else { c.note("move assign"); *o2.t = std::move(*o.t); o2.m = o.m; o.m = MN(); CHECK(c, o.t->root().num_nodes() == 0 && o.t->root().num_values() == 0, "moved-from tree isn't empty"); o.m.k = Obj; } break; }
            case 15: c.note("look up ", quote(nm)); { bool dup = false; size_t k = 0; for(auto& v : m->v) k += v.first == nm; for(auto& x : m->n) k += x.name == nm; for(auto* q : collide) dup |= nm == q; inter |= removed && (dup || k > 1); } look(c, *s, *m, nm); break;
            case 16: { size_t i = c.draw(std::max(m->v.size(), m->n.size()) + 2); c.note("look up ", i); look(c, *s, *m, i); break; }
            case 17: lists(c, *s, *m); break;
            default: { Fmt f = c.flip() ? MP : SR; c.note("write node ", quote(m->name)); auto b = with(f, [&](auto& p) { return str(s->to_source(p)); }); CHECK(c, equal(norm(decode(f, b)), norm(to(*m)), &why), "Node::to_source: " << why); }
        }
        if(c.chance(1, 4)) { verify(c, o.t->root(), o.m, "after the operation"); }
    }
    c.nontrivial(removed && inter);
    for(auto& o : ts) {
        verify(c, o.t->root(), o.m, "at the end");
        Fmt f = c.flip() ? MP : SR; auto d = norm(to(o.m)); auto b = write(*o.t, f);
        CHECK(c, equal(norm(decode(f, b)), d, &why), "document written at the end: " << why);
    }
}
