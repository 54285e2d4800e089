// C26: direct restore and document access accept and read the same data.
#include "dyn.hpp"
#include "mutate.hpp"
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C26", "documents of run-time drawn object types with 0-4 well-formed mutations (values of another kind, scopes for scalars and the reverse, elements/fields removed, added, duplicated, renamed), "
         "restored directly, via load_source + paste, unpack, Union::copy_to; all routes have to agree, definitely wrong shapes have to be refused by all; non-trivial: at least one mutation")

static std::vector<Doc*> all(Doc& d) { std::vector<Doc*> r{ &d }; for(size_t i = 0; i < d.m.size(); i++) for(auto* x : all(d.m[i].second)) r.push_back(x); return r; }
static void change(Case& c, Gen& g, Doc& d)
{
    auto v = all(d); Doc& x = *v[v.size() > 1 ? 1 + c.draw(v.size() - 1) : 0];
    Doc& root = *v[0]; if(&x == &root && !x.scope()) return;
    size_t how = c.draw(10);
    if(&x == &root) how = 4 + how % 5;
    auto uniq = [&](Doc& o, Bytes n) { for(bool again = true; again;) { again = false; for(auto& q : o.m) if(q.first == n) { n += "u"; again = true; } } return n; };
    switch(how) {
        case 0: x = g.scalar(); break;
        case 1: x = g.tree(4, 6); break;
        case 2: if(x.k == Int || x.k == Flt || x.k == Bool) x = Doc::str(x.k == Int ? i128(x.i) : x.k == Bool ? (x.b ? "true" : "false") : std::to_string(x.f)); else x = Doc(); break;
        case 3: if(x.k == Int) { x.i = g.integer_for(c.flip() ? U64 : I64); x.ct = x.i < 0 ? I64 : U64; } else if(x.k == Str) x.s += "more"; else x = Doc::flt(g.dbl()); break;
        case 4: if(x.m.size()) x.m.erase(x.m.begin() + c.draw(x.m.size())); break;
        case 5: if(x.k == Arr) x.m.insert(x.m.begin() + c.draw(x.m.size() + 1), { "", c.flip() ? g.scalar() : g.tree(4, 5) }); else if(x.k == Obj) x.m.emplace_back(uniq(x, g.name()), g.scalar()); break;
        case 6: if(x.k == Arr && x.m.size()) { auto e = x.m[c.draw(x.m.size())]; x.m.push_back(e); } break;
        case 7: if(x.k == Obj && x.m.size()) { auto& e = x.m[c.draw(x.m.size())]; e.first = uniq(x, e.first + "!"); } break;
        case 8: if(x.k == Obj && x.m.size() > 1) std::swap(x.m[c.draw(x.m.size())], x.m[c.draw(x.m.size())]); break;
        default: if(x.scope()) { x.k = x.k == Obj ? Arr : Obj; if(x.k == Arr) for(auto& e : x.m) e.first.clear(); else { size_t i = 0; for(auto& e : x.m) e.first = "n" + std::to_string(i++); } } else x = Doc::boolean(true); break;
    }
}
struct Res { std::string err; std::shared_ptr<Dyn> d; };
template<class F> static Res run(const Dyn* start, F&& fn)
{
    Res r; r.d = start ? std::make_shared<Dyn>(*start) : std::make_shared<Dyn>();
    r.err = thrown([&] { fn(*r.d); });
    return r;
}
static std::vector<std::pair<std::string, Res>> routes(Case& c, Fmt f, const Bytes& b, const Bytes& pb, const Dyn* start)
{
    std::vector<std::pair<std::string, Res>> r; auto via = pick_via(c); auto chunk = pick_chunk(c);
    auto add = [&](const char* n, auto&& fn) { r.emplace_back(n, run(start, fn)); };
    add("restore", [&](Dyn& t) { source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().restore(t, s, p); }); }); });
    add("load_source + paste", [&](Dyn& t) { Srl::Tree x; load(x, f, b, via, chunk); x.root().paste(t); });
    add("unpack", [&](Dyn& t) { source(via, pb, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree().unpack(s, p, "obj", t); }); }); });
    add("unpack Union + copy_to", [&](Dyn& t) { source(via, pb, chunk, [&](auto& s) { with(f, [&](auto& p) { Srl::Tree x; Srl::Union u; x.unpack(s, p, "obj", u); u.copy_to(t); }); }); });
    add("load_source + paste_field", [&](Dyn& t) { Srl::Tree x; load(x, f, pb); x.root().paste_field(Srl::String("obj"), t); });
    if(!start) add("unwrap", [&](Dyn& t) { Srl::Tree x; load(x, f, b); t = x.root().unwrap<Dyn>(); });
    if(!start) add("get().unwrap", [&](Dyn& t) { Srl::Tree x; load(x, f, pb); t = x.get("obj").unwrap<Dyn>(); });
    return r;
}
PBT_TEST(agree, 6000, 150000)
{
    Gen g(c); dyn::Opt o; dyn::draw_schema(g, o);
    Dyn a; a.gen(g); Doc d = a.doc();
    size_t n = c.draw(5); for(size_t i = 0; i < n; i++) change(c, g, d);
    c.nontrivial(n > 0);
    Fmt f = pick_fmt(c); auto b = wild(c, f, d);
    auto w = Doc::obj(); w.m.emplace_back("pre", Doc::integer(1)); w.m.emplace_back("obj", d); w.m.emplace_back("post", Doc::arr());
    auto pb = wild(c, f, w);
    c.note(dyn::show_schema(), name(f), " ", show(d, 1200));
    Dyn start; bool dirty = c.flip(); if(dirty) start.gen(g);
    auto rs = routes(c, f, b, pb, dirty ? &start : nullptr);
    auto info = [&] { return "\n" + dyn::show_schema() + "document " + show(d, 1500) + "\nbytes " + quote(b, 600); };
    bool any = false, alle = true; for(auto& r : rs) { any |= r.second.err.empty(); alle &= r.second.err.empty(); }
    if(any != alle) { std::string s; for(auto& r : rs) s += "\n  " + r.first + ": " + (r.second.err.empty() ? "accepted" : "refused (" + r.second.err + ")"); CHECK(c, false, "routes disagree:" << s << info()); }
    c.label(any ? "accepted" : "refused");
    if(any) for(size_t i = 1; i < rs.size(); i++) { dyn::Cmp cm; CHECK(c, rs[0].second.d->equal(*rs[i].second.d, cm, "obj"), rs[0].first << " and " << rs[i].first << " read different objects: " << cm.why << info()); }
    if(n == 0) { dyn::Cmp cm; CHECK(c, any, "unchanged document refused: " << rs[0].second.err << info()); CHECK(c, a.equal(*rs[0].second.d, cm, "obj"), "object differs: " << cm.why << info()); }
}

// one field of a known type, its data definitely of the wrong shape
PBT_TEST(wrong_shape, 8000, 150000)
{
    Gen g(c); dyn::Opt o; o.optional = false; o.shared = false; dyn::draw_schema(g, o);
    auto& sc = dyn::schema(0);
    Dyn a; a.gen(g); Doc d = a.doc();
    std::vector<size_t> idx; for(size_t i = 0; i < sc.size(); i++) if(!sc[i].positional) idx.push_back(i);
    if(idx.empty()) throw pbt::Discard{};
    size_t i = idx[c.draw(idx.size())]; std::string k = sc[i].kind->name; Doc& x = d.m[i].second;
    bool leaf = sc[i].kind->flags & dyn::Leaf, ptr = k.find("unique_ptr") != std::string::npos || k.find("Own<") == 0;
    bool top_ptr = k.find("std::unique_ptr") == 0 || k.find("Own<") == 0; (void)ptr;
    std::string what; std::vector<int> options = { 0 };
    bool arr = k == "int[4]" || k == "Str[3]" || k == "double[2][3]" || k == "Vec<int>[2]" || k.find("Arr2<") == 0;
    bool num = k == "bool" || k.find("int") == 0 || k.find("uint") == 0 || k == "float" || k == "double" || k == "long double";
    num = num && leaf;
    bool chr = k == "char" || k == "char16_t" || k == "char32_t" || k == "wchar_t";
    size_t cap = k == "char[8]" ? 7 : k == "char[1]" ? 0 : k == "char[40]" ? 39 : k == "char16_t[6]" ? 5 : k == "char32_t[5]" ? 4 : k == "wchar_t[9]" ? 8 : ~size_t(0);
    if(arr) { options.push_back(1); options.push_back(2); options.push_back(2); }
    if(num) options.push_back(3);
    if(chr || cap != ~size_t(0)) { options.push_back(4); options.push_back(4); options.push_back(5); }
    if(k.find("std::pair") == 0 || k.find("Srl::Lib::HTable") == 0) options.push_back(6);
    if(k.find("std::tuple") == 0) options.push_back(7);
    switch(c.pick(options)) {
        case 0: if(leaf) { what = "scope for a scalar"; x = g.tree(4, 6); } else { what = "scalar for a scope"; do x = g.scalar(); while(x.k == Null && top_ptr); } break;
        case 1: what = "too few elements"; x.m.pop_back(); break;
        case 2: { what = "too many elements"; size_t more = 1 + c.draw(3); for(size_t q = 0; q < more; q++) { Doc e = x.m[c.draw(x.m.size())].second; x.m.emplace_back("", e); } break; }
        case 3: what = "text which isn't a number"; x = Doc::str(c.pickl<const char*>({ "", "x", "1x", "1 2", "--1", "1-", "tru", "truee", "nulll", "0.0.0", "1e", "e5", "\xC3\xA9", ",", "1,5" })); break;
        case 4: what = "text of the wrong length"; { size_t len = chr ? (c.flip() ? 0 : 2 + c.draw(4)) : cap + 1 + c.draw(5); x = Doc::str(Bytes(len, 'w')); } break;
        case 5: what = "number or boolean for characters"; x = c.flip() ? Doc::integer(c.draw(10)) : Doc::boolean(c.flip()); break;
        case 6: what = "array for an object"; if(x.k != Obj) throw pbt::Discard{}; x.k = Arr; for(auto& e : x.m) e.first.clear(); break;
        case 7: what = "too few elements for a tuple"; for(size_t q = x.m.size(); q-- > 0;) { x.m.erase(x.m.begin() + q); break; } break;
    }
    c.nontrivial(); c.label(what);
    Fmt f = pick_fmt(c); auto b = wild(c, f, d);
    auto w = Doc::obj(); w.m.emplace_back("obj", d); auto pb = wild(c, f, w);
    c.note(dyn::show_schema(), what, " in field ", i, " ", name(f), " ", show(d, 900));
    for(auto& r : routes(c, f, b, pb, nullptr))
        CHECK(c, !r.second.err.empty(), what << " for " << k << " was accepted by " << r.first << ":\n" << show(x, 300) << "\n" << dyn::show_schema() << "document " << show(d, 900) << "\nbytes " << quote(b, 500));
}
