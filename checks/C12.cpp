// C12: fields are matched by name; order, unknown and missing optional fields never matter.
#include "dyn.hpp"
#include "mutate.hpp"
#include "names.hpp"
#include <set>
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C12", "objects of run-time drawn struct types, their documents rewritten by an independent encoder with every struct's fields permuted, unknown fields (scalars to nested scopes, also with "
         "names of colliding hash) added and optional ones dropped at random levels, restored directly, through a document and by unpack; non-trivial: something was permuted, added or dropped")

struct Edit { bool permute = true, add = true, drop = false; size_t changed = 0; std::vector<Bytes> dropped_top; };

static bool is_struct(const Doc& d) { return d.k == Obj && d.i >= dyn::Tag_Struct && d.i < dyn::Tag_Struct + dyn::LEVELS; }
// positions of values among values and nodes among nodes stay as they are
static void interleave(Case& c, std::vector<std::pair<Bytes, Doc>>& m)
{
    std::vector<std::pair<Bytes, Doc>> v, n, r; for(auto& x : m) (x.second.scope() ? n : v).push_back(x);
    size_t i = 0, k = 0; while(i < v.size() || k < n.size()) { if(k == n.size() || (i < v.size() && c.flip())) r.push_back(v[i++]); else r.push_back(n[k++]); }
    m = r;
}
// edits d in place; want: the document of the object to be expected in a fresh target
static void edit(Case& c, Gen& g, Doc& d, Doc& want, Edit& e, bool top)
{
    for(size_t i = 0; i < d.m.size(); i++) if(d.m[i].second.scope()) edit(c, g, d.m[i].second, want.m[i].second, e, false);
    if(d.k != Obj) return;
    bool st = is_struct(d); auto* sc = st ? &dyn::schema((int)d.i - dyn::Tag_Struct) : nullptr;
    bool pos = sc && sc->size() && (*sc)[0].positional, table = d.i == dyn::Tag_Table;
    if(e.drop && st && !pos) {
        std::vector<std::pair<Bytes, Doc>> left;
        for(size_t i = 0; i < d.m.size(); i++) {
            if((*sc)[i].optional && c.flip()) {
                e.changed++;
                if(top) e.dropped_top.push_back(d.m[i].first);
                dyn::Docs ds; want.m[i].second = (*sc)[i].kind->make((int)d.i - dyn::Tag_Struct + 1)->doc(ds);
            } else left.push_back(d.m[i]);
        }
        d.m = left;
    }
    std::set<Bytes> own; for(auto& x : d.m) own.insert(x.first);
    if(sc) for(auto& s : *sc) own.insert(s.name);
    if(e.permute && pos) { interleave(c, d.m); e.changed++; }
    if(e.permute && !pos && d.m.size() > 1 && c.chance(3, 4)) { for(size_t i = d.m.size(); i > 1; i--) std::swap(d.m[i - 1], d.m[c.draw(i)]); e.changed++; }
    if(e.add && !table && (st || c.chance(1, 4))) {
        size_t n = c.weighted({ 50, 30, 15, 5 });
        if(n == 3) n = 3 + c.draw(10);
        for(size_t i = 0; i < n; i++) {
            Doc x; size_t k = c.draw(4);
            if(k < 2) x = g.scalar(); else if(k == 2) { Gen small(c); small.nonfinite = g.nonfinite; x = small.tree(2, 12); } else { x = c.flip() ? Doc::arr() : Doc::obj(); }
            Bytes nm; do { nm = c.chance(1, 5) ? Bytes(collide[c.draw(4)]) : g.name(); while(own.count(nm) || nm.empty()) nm += "xyz"[c.draw(3)]; } while(0);
            if(pos) d.m.emplace_back(nm, x); else d.m.insert(d.m.begin() + c.draw(d.m.size() + 1), { nm, x });
            e.changed++;
        }
    }
}
static std::string ctx(const Dyn& a, const Doc& d, const Bytes& b) { return "\n" + dyn::show_schema() + "object " + show(a.doc(), 900) + "\ndocument " + show(d, 1200) + "\nbytes " + quote(b, 600); }

PBT_TEST(structs, 4500, 150000)
{
    Gen g(c); g.negzero = false; dyn::Opt o; o.optional = true;
    dyn::draw_schema(g, o);
    if(c.flip()) for(int l = 0; l < dyn::LEVELS; l++) for(auto& s : dyn::schema(l)) if(!s.positional && c.flip()) s.optional = true;
    Dyn a; a.gen(g);
    Doc d = a.doc(), want = d; Edit e; e.drop = !dyn::has_kind(dyn::Shared | dyn::Unordered) && c.chance(2, 3); e.add = c.chance(3, 4); e.permute = c.chance(3, 4);
    g.big = c.chance(1, 20) && nodes(d) < 30;
    edit(c, g, d, want, e, true);
    c.nontrivial(e.changed > 0);
    Fmt f = pick_fmt(c);
    auto b = wild(c, f, d);
    c.note(dyn::show_schema(), "object ", show(a.doc(), 700), "\nas ", name(f), " ", show(d, 900));
    auto via = pick_via(c); auto chunk = pick_chunk(c);
    bool dirty = c.flip();
    // into a target whose members of the top level have other values: dropped ones keep them, nested ones are compared in fresh targets only
    bool nested_drop = e.drop && e.changed > e.dropped_top.size();
    Dyn start; if(dirty) start.gen(g);
    Dyn expected(a); if(e.drop) { for(size_t i = 0; i < expected.f.size(); i++) for(auto& n : e.dropped_top) if(n == dyn::schema(0)[i].name) expected.f[i] = start.f[i]->clone(); }
    // the same object between others
    auto w = Doc::obj(); std::vector<std::pair<Bytes, Doc>> items = { { "int before", Doc::integer(-5) }, { "obj", d }, { "text after", Doc::str("after") }, { "list after", [] { auto l = Doc::arr(); for(int i = 0; i < 3; i++) l.m.emplace_back("", Doc::integer(i)); return l; }() } };
    for(size_t i = 4; i > 1; i--) std::swap(items[i - 1], items[c.draw(i)]);
    for(auto& x : items) { if(c.chance(1, 3)) w.m.emplace_back("junk " + std::to_string(w.m.size()), c.flip() ? g.scalar() : d); w.m.push_back(x); }
    auto wb = wild(c, f, w);
    auto run = [&](const char* how, auto&& fn) {
        Dyn t(start), fresh;
        auto m = thrown([&] { fn(t, fresh); });
        CHECK(c, m.empty(), how << " threw: " << m << ctx(a, d, b) << "\nwith items " << quote(wb, 900));
        dyn::Cmp cm;
        if(!nested_drop) CHECK(c, expected.equal(t, cm, "obj"), how << ": " << cm.why << (dirty ? " (target had been used: " + show(start.doc(), 500) + ")" : "") << ctx(a, d, b));
        if(e.drop) { std::string why; CHECK(c, doc::equal(norm(fresh.doc()), norm(want), &why), how << " (fresh target): " << why << "\nwant " << show(want) << "\ngot " << show(fresh.doc()) << ctx(a, d, b)); }
        else { cm.why.clear(); CHECK(c, a.equal(fresh, cm, "obj"), how << " (fresh target): " << cm.why << ctx(a, d, b)); }
    };
    run("restore", [&](Dyn& t, Dyn& fr) { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(t, s, p); }); }); with(f, [&](auto& p) { Srl::Tree().restore(fr, (const uint8_t*)b.data(), b.size(), p); }); });
    run("load_source + paste", [&](Dyn& t, Dyn& fr) { Srl::Tree x; load(x, f, b, via, chunk); x.root().paste(t); Srl::Tree y; load(y, f, b); y.root().paste(fr); });
    run("unpack", [&](Dyn& t, Dyn& fr) {
        for(auto* x : { &t, &fr }) source(via, wb, chunk, [&](auto& s) { with(f, [&](auto& p) {
            int n = 0; std::string str; std::vector<int> l;
            switch(c.draw(4)) {
                case 0: Srl::Tree().unpack(s, p, "int before", n, "obj", *x, "text after", str, "list after", l); break;
                case 1: Srl::Tree().unpack(s, p, "list after", l, "text after", str, "obj", *x, "int before", n); break;
                case 2: Srl::Tree().unpack(s, p, "text after", str, "int before", n, "obj", *x, "list after", l); break;
                default: Srl::Tree().unpack(s, p, "obj", *x); n = -5; str = "after"; l = { 0, 1, 2 }; break;
            }
            if(n != -5 || str != "after" || l != std::vector<int>{ 0, 1, 2 }) throw std::runtime_error("other items wrong: " + std::to_string(n) + " '" + str + "' " + std::to_string(l.size()));
        }); });
    });
}

// a required field is missing somewhere
PBT_TEST(missing_required, 3500, 100000)
{
    Gen g(c); dyn::Opt o; o.optional = false; o.positional = false;
    dyn::draw_schema(g, o);
    Dyn a; a.gen(g);
    Doc d = a.doc(), want = d; Edit e; e.add = c.flip(); e.permute = c.flip();
    std::vector<std::pair<Doc*, size_t>> cand;
    std::function<void(Doc&)> walk = [&](Doc& x) {
        for(size_t i = 0; i < x.m.size(); i++) { if(x.k == Obj && x.i != dyn::Tag_Table && !(x.m.size() == 1 && x.m[0].first == "srl_shared_key")) cand.push_back({ &x, i }); if(x.m[i].second.scope()) walk(x.m[i].second); }
    };
    walk(d);
    if(cand.empty()) throw pbt::Discard{};
    auto [at, i] = cand[c.draw(cand.size())];
    Bytes gone = at->m[i].first; bool st = is_struct(*at);
    if(gone == "srl_shared_value") throw pbt::Discard{};
    // removed after the edit through a mark, since the edit moves things around
    Doc mark = at->m[i].second; at->m[i].second = Doc(); at->m[i].second.k = Null; at->m[i].second.s = "gone";
    edit(c, g, d, want, e, true);
    std::function<void(Doc&)> cut = [&](Doc& x) { for(size_t k = 0; k < x.m.size(); k++) { if(x.m[k].second.k == Null && x.m[k].second.s == "gone") { x.m.erase(x.m.begin() + k); k--; continue; } cut(x.m[k].second); } };
    cut(d);
    c.nontrivial(); c.label(st ? "struct field" : "pair/map/shared field");
    Fmt f = pick_fmt(c); auto b = wild(c, f, d);
    c.note(dyn::show_schema(), "without ", quote(gone, 60), ": ", show(d, 700));
    { Dyn t; auto m = thrown([&] { source(pick_via(c), b, pick_chunk(c), [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(t, s, p); }); }); });
      CHECK(c, !m.empty(), "restore accepted a document without " << quote(gone, 60) << ctx(a, d, b)); }
    { Srl::Tree x; load(x, f, b); Dyn t; auto m = thrown([&] { x.root().paste(t); });
      CHECK(c, !m.empty(), "paste accepted a document without " << quote(gone, 60) << ctx(a, d, b)); }
}

// any subset of packed items in any order, with different kinds of targets
struct Item { Bytes name; Doc d; };
typedef std::vector<Item> Items;
struct Nm { std::string n8; std::u16string n16; bool wide; operator Srl::String() const { return wide ? Srl::String(n16) : Srl::String(n8); } };
template<size_t N> struct Unpacker {
    template<class Src, class P, class... A>
    static void go(Case& c, const Items& it, std::vector<size_t> order, size_t k, Src& s, P& p, std::vector<std::function<std::string()>>& checks, A&... args)
    {
        if(k == order.size()) { Srl::Tree t; t.unpack(s, p, args...);
            for(auto& f : checks) { auto m = f(); if(m.size()) throw std::runtime_error(m); }
            return; }
        if constexpr(N > 0) {
            auto& x = it[order[k]];
            auto wrong = [&x](const std::string& w) { return "item " + quote(x.name, 60) + " is wrong: " + w; };
            Nm nm{ x.name, to16(from_utf8(x.name)), c.chance(1, 4) };
            bool u_ = c.chance(1, 3);
            if(!u_ && x.d.k == Str) {
                std::string v = "stale"; checks.push_back([&, wrong]() -> std::string { return v == x.d.s ? "" : wrong(v); });
                Unpacker<N - 1>::go(c, it, order, k + 1, s, p, checks, args..., nm, v);
            } else if(!u_ && x.d.k == Int && x.d.i <= INT64_MAX) {
                int64_t v = -77; checks.push_back([&, wrong]() -> std::string { return v == (int64_t)x.d.i ? "" : wrong(std::to_string(v)); });
                Unpacker<N - 1>::go(c, it, order, k + 1, s, p, checks, args..., nm, v);
            } else {
                Srl::Union u;
                checks.push_back([&, wrong]() -> std::string { std::string why; return text_equal(norm(u.is_node() ? dump(*u.node()) : dump(*u.value())), norm(x.d), &why) ? "" : wrong(why); });
                Unpacker<N - 1>::go(c, it, order, k + 1, s, p, checks, args..., nm, u);
            }
        }
    }
};
PBT_TEST(unpack_subset, 7000, 150000)
{
    Gen g(c); g.dup_names = false;
    Items it; std::set<Bytes> used; size_t n = 1 + c.draw(12);
    for(size_t i = 0; i < n; i++) {
        Bytes nm = c.chance(1, 6) ? Bytes(collide[c.draw(4)]) : g.name(); while(nm.empty() || used.count(nm)) nm += "pq"[c.draw(2)];
        used.insert(nm);
        it.push_back({ nm, c.flip() ? g.scalar() : g.tree(3, 12) });
    }
    auto d = Doc::obj(); for(auto& x : it) d.m.emplace_back(x.name, x.d);
    std::vector<size_t> order; for(size_t i = 0; i < n; i++) order.push_back(i);
    for(size_t i = n; i > 1; i--) std::swap(order[i - 1], order[c.draw(i)]);
    order.resize(1 + c.draw(std::min<size_t>(n, 3)));
    bool back = false; for(size_t i = 1; i < order.size(); i++) back |= order[i] < order[i - 1];
    c.nontrivial(back || (order.size() < n));
    c.label(back ? "out of order" : "in order");
    Fmt f = pick_fmt(c); auto b = wild(c, f, d);
    std::string ord; for(auto o : order) ord += quote(it[o].name, 40) + " ";
    c.note(show(d, 700), "\nunpacked: ", ord);
    auto m = thrown([&] { source(pick_via(c), b, pick_chunk(c), [&](auto& s) { with(f, [&](auto& p) { std::vector<std::function<std::string()>> ck; Unpacker<3>::go(c, it, order, 0, s, p, ck); }); }); });
    CHECK(c, m.empty(), name(f) << " unpack of " << ord << ": " << m << "\n" << show(d) << "\n" << quote(b, 600));
    // an item which isn't there
    { int x = 0; m = thrown([&] { source(pick_via(c), b, pick_chunk(c), [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().unpack(s, p, "no such item, surely", x); }); }); });
      CHECK(c, !m.empty(), "unpack of an absent item succeeded"); }
}

// a struct whose resolve function handles required fields being missing by itself
struct Step { Bytes name; int what = 0; /* 0 absent, 1 integer, 2 text, 3 list, 4 struct, 5 node read as a value, 6 value read as a node */ int64_t i = 0; std::string s; std::vector<int> l; std::vector<Step> sub; bool wide = false; };
struct Tolerant {
    const std::vector<Step>* plan = nullptr; std::string wrong;
    void srl_resolve(Srl::Context& c)
    {
        for(auto& st : *plan) {
            Nm nm{ st.name, to16(from_utf8(st.name)), st.wide }; bool threw = false; int64_t n = -1; std::string t = "stale"; std::vector<int> l; Tolerant sub; sub.plan = &st.sub;
            try { switch(st.what) {
                case 0: { switch(st.i % 4) { case 0: c(nm, n); break; case 1: c(nm, t); break; case 2: c(nm, l); break; default: c(nm, sub); break; } break; }
                case 1: c(nm, n); break;
                case 2: c(nm, t); break;
                case 3: c(nm, l); break;
                case 4: c(nm, sub); break;
                case 5: if(st.i % 2) c(nm, n); else c(nm, t); break;
                default: if(st.i % 2) c(nm, l); else c(nm, sub); break;
            } } catch(const std::exception&) { threw = true; }
            bool absent = st.what == 0 || st.what > 4;
            if(absent != threw) { wrong += quote(st.name, 60) + (threw ? " not found; " : " found though absent; "); continue; }
            if(absent && (n != -1 || t != "stale" || l.size())) wrong += quote(st.name, 60) + " absent but assigned; ";
            if((st.what == 1 && n != st.i) || (st.what == 2 && t != st.s) || (st.what == 3 && l != st.l)) wrong += quote(st.name, 60) + " differs: " + std::to_string(n) + " '" + t + "'; ";
            if(st.what == 4) wrong += sub.wrong;
        }
    }
};
static Doc tolerant(Case& c, Gen& g, std::vector<Step>& plan, int depth, bool& absent)
{
    auto d = Doc::obj(); std::set<Bytes> used; size_t n = c.draw(8);
    for(size_t k = 0; k < n; k++) {
        Step st; st.name = c.chance(1, 5) ? Bytes(collide[c.draw(4)]) : g.name(); while(st.name.empty() || used.count(st.name)) st.name += "xyz"[c.draw(3)];
        used.insert(st.name); st.wide = c.chance(1, 6); st.what = (int)c.weighted({ 4, 3, 3, 3, 3, 1, 1 }); if(depth == 0 && st.what == 4) st.what = 3;
        st.i = (int64_t)c.draw64() >> c.draw(60); Doc v;
        switch(st.what) {
            case 0: absent = true; st.i &= 3; break;
            case 1: v = Doc::integer(st.i); break;
            case 2: st.s = g.text(12); v = Doc::str(st.s); break;
            case 3: case 5: { v = Doc::arr(); for(size_t m = c.draw(5); m--;) { st.l.push_back((int)c.draw(1000)); v.m.emplace_back("", Doc::integer(st.l.back())); } if(st.what == 5) absent = true; st.i &= 1; break; }
            case 4: v = tolerant(c, g, st.sub, depth - 1, absent); break;
            default: v = g.scalar(); absent = true; st.i &= 1; break;
        }
        if(st.what) d.m.emplace_back(st.name, v);
        plan.push_back(st);
        if(c.chance(1, 4)) { Bytes nm = g.name(); while(nm.empty() || used.count(nm)) nm += "xyz"[c.draw(3)]; used.insert(nm); d.m.emplace_back(nm, c.flip() ? g.scalar() : g.tree(2, 5)); }
    }
    for(size_t i = d.m.size(); i > 1; i--) if(c.flip()) std::swap(d.m[i - 1], d.m[c.draw(i)]);
    return d;
}
PBT_TEST(handled_absence, 16000, 600000)
{
    Gen g(c); g.big = false; std::vector<Step> plan; bool absent = false; Doc d = tolerant(c, g, plan, 3, absent);
    // names asked for as absent must not be among the unknown fields of that level; they are unique by construction
    c.nontrivial(absent); Fmt f = pick_fmt(c); auto b = wild(c, f, d); auto via = pick_via(c); auto chunk = pick_chunk(c);
    c.note(name(f), " ", show(d, 900));
    { Tolerant t; t.plan = &plan; auto m = thrown([&] { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(t, s, p); }); }); });
      CHECK(c, m.empty() && t.wrong.empty(), "restore: " << m << " " << t.wrong << "\n" << show(d, 1500) << "\n" << quote(b, 800)); }
    { Srl::Tree x; load(x, f, b, via, chunk); Tolerant t; t.plan = &plan; auto m = thrown([&] { x.root().paste(t); });
      CHECK(c, m.empty() && t.wrong.empty(), "load + paste: " << m << " " << t.wrong << "\n" << show(d, 1500)); }
    { auto w = Doc::obj(); w.m.emplace_back("tolerant", d); w.m.emplace_back("after", Doc::integer(77)); auto wb = wild(c, f, w); Tolerant t; t.plan = &plan; int after = 0;
      auto m = thrown([&] { source(via, wb, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().unpack(s, p, "tolerant", t, "after", after); }); }); });
      CHECK(c, m.empty() && t.wrong.empty() && after == 77, "unpack: " << m << " " << t.wrong << " item after: " << after << "\n" << show(d, 1500) << "\n" << quote(wb, 800)); }
}

// listed in KNOWN_FINDINGS
struct Refs { std::shared_ptr<int> a, b; bool swapped = false; void srl_resolve(Srl::Context& c) { if(swapped) { c("b", b); c("a", a); } else { c("a", a); c("b", b); } } };
// objects which ask the context for mode and node
namespace {
struct Asks {
    std::vector<std::pair<std::string, int64_t>> v; std::vector<Asks> kids; std::string txt; int layout = 0; mutable int inserts = 0, pastes = 0; bool order = false;
    void srl_resolve(Srl::Context& ctx)
    {
        if(ctx.mode() == Srl::Mode::Insert) {
            inserts++; ctx("n", v.size())("layout", layout);
            for(size_t i = 0; i < v.size(); i++) { auto& nd = ctx.node(); auto k = "f" + std::to_string(i); if(layout & 1) nd.insert(k + "n", v[i].first, k + "v", v[i].second); else { nd.insert(k, v[i]); } }
        } else {
            pastes++; size_t n = 0; ctx("n", n)("layout", layout); v.clear();
            for(size_t i = 0; i < n; i++) {
                auto& nd = ctx.node(); auto k = "f" + std::to_string(i); std::pair<std::string, int64_t> x;
                if(!(layout & 1)) { if(layout & 2) nd.paste(k, x); else x = nd.unwrap_field<std::pair<std::string, int64_t>>(k); }
                else if(layout & 2) nd.paste(k + "v", x.second, k + "n", x.first); else { x.second = nd.unwrap_field<int64_t>(k + "v"); x.first = nd.unwrap_field<std::string>(k + "n"); }
                v.push_back(x);
            }
        }
        ctx("kids", kids)("txt", txt);
    }
    void gen(Case& c, Gen& g, int depth) { layout = (int)c.draw(4); for(size_t n = c.draw(4); n--;) v.emplace_back(g.text(12), c.range(-100000, 100000)); if(depth) for(size_t n = c.draw(3); n--;) { kids.emplace_back(); kids.back().gen(c, g, depth - 1); } txt = g.text(10); }
    std::string same(const Asks& o) const
    {
        if(v != o.v || txt != o.txt || layout != o.layout || kids.size() != o.kids.size()) return "content differs";
        if(o.inserts || o.pastes != 1) return "resolved in mode Insert " + std::to_string(o.inserts) + ", Paste " + std::to_string(o.pastes) + " times when it was restored";
        for(size_t i = 0; i < kids.size(); i++) { auto r = kids[i].same(o.kids[i]); if(r.size()) return "kid " + std::to_string(i) + ": " + r; }
        return "";
    }
    std::string modes() const { if(inserts != 1 || pastes) return "resolved in mode Insert " + std::to_string(inserts) + ", Paste " + std::to_string(pastes) + " times when it was stored"; for(auto& k : kids) { auto r = k.modes(); if(r.size()) return r; } return ""; }
    void reset() const { inserts = pastes = 0; for(auto& k : kids) k.reset(); }
};
}
PBT_TEST(context_access, 6000, 200000)
{
    Gen g(c); g.big = false; Asks a; a.gen(c, g, 3); Fmt f = pick_fmt(c); auto via = pick_via(c); auto chunk = pick_chunk(c); c.nontrivial(a.v.size() && a.kids.size());
    auto check = [&](const char* how, const Asks& r) { auto w = a.same(r); CHECK(c, w.empty(), how << " (format " << name(f) << "): " << w); };
    auto modes = [&](const char* how) { auto w = a.modes(); CHECK(c, w.empty(), how << ": " << w); a.reset(); };
    Bytes b = with(f, [&](auto& p) { return str(Srl::Tree().store(a, p)); }); modes("store"); c.note(quote(b, 800));
    Srl::Tree t; t.root().insert("obj", a, "last", 7); modes("insert"); Bytes tb = with(f, [&](auto& p) { return str(t.to_source(p)); });
    { Bytes pk; with(f, [&](auto& p) { std::vector<uint8_t> v; Srl::Tree().pack(v, p, "obj", a, "last", 7); pk = str(v); }); modes("pack"); CHECK(c, text_equal(norm(decode(f, pk)), norm(decode(f, tb))), "pack and insert + to_source differ:\n" << quote(pk, 600) << "\n" << quote(tb, 600)); }
    { Srl::Tree l; l.load_object(a); modes("load_object"); Asks r; l.root().paste(r); check("load_object + paste", r); }
    { Asks r; t.root().paste("obj", r); check("insert + paste", r); }
    { Asks r = t.root().unwrap_field<Asks>("obj"); check("unwrap_field", r); }
    { Asks r; source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(r, s, p); }); }); check("restore", r); }
    { Asks r; Srl::Tree x; load(x, f, b, via, chunk); x.root().paste(r); check("load_source + paste", r); }
    { Asks r; int last = 0; bool rev = c.flip(); source(via, tb, chunk, [&](auto& s) { with(f, [&](auto& p) { if(rev) Srl::Tree().unpack(s, p, "last", last, "obj", r); else Srl::Tree().unpack(s, p, "obj", r, "last", last); }); }); check("unpack", r); CHECK(c, last == 7, "the item following is " << last); }
}
PBT_PROBE(shared_reference_before_definition)
{
    Refs x, y; x.a = x.b = std::make_shared<int>(7); y.swapped = true;
    auto m = thrown([&] { auto v = Srl::Tree().store(x, Srl::PJson()); Srl::Tree().restore(y, v, Srl::PJson()); });
    if(m.size()) return "fields a, b refer to one object; reading b before a throws: " + m;
    return y.a && y.a == y.b && *y.a == 7 ? "" : "sharing is lost";
}
