#include "dyn.hpp"
#include <algorithm>
#include <set>
namespace dyn {
std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
std::vector<Spec>& schema(int l) { static thread_local std::vector<Spec> s[LEVELS]; return s[l]; }

Base::Base(int l) : level(l) { reset(); }
Base::Base(const Base& o) : level(o.level) { for(auto& x : o.f) f.push_back(x->clone()); }
void Base::reset() { f.clear(); for(auto& s : schema(level)) f.push_back(s.kind->make(level + 1)); }
long& budget() { static thread_local long b; return b; }
void Base::gen(Gen& g) { if(level == 0) { budget() = g.c.chance(1, 30) ? 1000 : 30; g.big = g.c.chance(1, 20); } for(auto& x : f) x->gen(g); }
bool Base::equal(const Base& o, Cmp& c, const std::string& p) const
{
    if(f.size() != o.f.size()) return c.no(p, "number of fields");
    for(size_t i = 0; i < f.size(); i++)
        if(!f[i]->equal(*o.f[i], c, p + "." + (schema(level)[i].positional ? "#" + std::to_string(i) : doc::quote(schema(level)[i].name, 40)) + "(" + schema(level)[i].kind->name + ")")) return false;
    return true;
}
Doc Base::doc(Docs& d) const
{
    auto r = Doc::obj(); r.i = Tag_Struct + level;
    for(size_t i = 0; i < f.size(); i++) { auto& s = schema(level)[i]; r.m.emplace_back(s.positional ? Bytes() : s.name, f[i]->doc(d)); }
    return r;
}
void name_call(const Spec& s, const std::function<void(const Srl::String&)>& fn)
{
    bool ok = false; std::vector<uint32_t> cp;
    if(s.enc >= 1) cp = doc::from_utf8(s.name, &ok);
    if(ok && s.enc == 1) { auto t = doc::to16(cp); fn(Srl::String(t)); }
    else if(ok && s.enc == 2) { auto t = doc::to32(cp); fn(Srl::String(t)); }
    else fn(Srl::String(s.name));
}
template<class F> static void each(const std::vector<std::unique_ptr<Field>>& f, int level, F&& fn)
{
    for(size_t i = 0; i < f.size(); i++) {
        auto& s = schema(level)[i];
        uint64_t fl = s.optional ? Srl::CtxFlags::Optional : Srl::CtxFlags::None;
        if(s.positional) fn(*f[i], nullptr, fl); else name_call(s, [&](const Srl::String& n) { fn(*f[i], &n, fl); });
    }
}
void Base::res(Srl::Context& c) { each(f, level, [&](Field& x, const Srl::String* n, uint64_t fl) { x.resolve(c, n, fl); }); }
void Base::sto(Srl::StoreContext& c) const { each(f, level, [&](Field& x, const Srl::String* n, uint64_t fl) { x.store(c, n, fl); }); }
void Base::rst(Srl::RestoreContext& c) { each(f, level, [&](Field& x, const Srl::String* n, uint64_t fl) { x.restore(c, n, fl); }); }

static void reach(int l, std::vector<bool>& r) { r[l] = true; if(l + 1 < LEVELS) for(auto& s : schema(l)) if(s.kind->flags & Struct) { reach(l + 1, r); return; } }
bool has_kind(unsigned fl)
{
    std::vector<bool> r(LEVELS); reach(0, r);
    for(int l = 0; l < LEVELS; l++) if(r[l]) for(auto& s : schema(l)) if(s.kind->flags & fl) return true;
    return false;
}
std::string show_schema()
{
    std::vector<bool> r(LEVELS); reach(0, r); std::string o;
    for(int l = 0; l < LEVELS; l++) if(r[l]) {
        o += "struct" + std::to_string(l) + " {";
        for(auto& s : schema(l)) o += std::string(" ") + s.kind->name + " " + (s.positional ? "#" : doc::quote(s.name, 40)) + (s.enc == 1 ? "u16" : s.enc == 2 ? "u32" : "") + (s.optional ? "?" : "") + ";";
        o += " }\n";
    }
    return o;
}
void draw_schema(Gen& g, const Opt& o)
{
    static bool sorted = false;                     // registration order depends on the link order
    if(!sorted) { std::sort(kinds().begin(), kinds().end(), [](const Kind& a, const Kind& b) { return a.flags != b.flags ? a.flags < b.flags : strcmp(a.name, b.name) < 0; }); sorted = true; }
    std::vector<const Kind*> leaf, scope, str;
    for(auto& k : kinds()) {
        if((!o.shared && (k.flags & Shared)) || (o.only && !(k.flags & o.only))) continue;
        (k.flags & Struct ? str : k.flags & Scope ? scope : leaf).push_back(&k);
    }
    auto& c = g.c;
    for(int l = 0; l < LEVELS; l++) {
        auto& sc = schema(l); sc.clear(); g.big = l == 0 && c.chance(1, 30);       // long names only where they appear once
        bool pos = o.positional && c.chance(1, 8);
        size_t n = c.chance(1, 30) ? 20 + c.draw(30) : c.draw(o.max_fields + 1);
        std::set<Bytes> used;
        for(size_t i = 0; i < n; i++) {
            Spec s; size_t w = c.weighted({ 45, 30, 25 });
            auto& from = w == 2 && l + 1 < LEVELS && o.structs && str.size() ? str : w == 1 && scope.size() ? scope : leaf;
            if(from.empty()) continue;
            s.kind = from[c.draw(from.size())];
            s.positional = pos;
            if(!pos) {
                s.name = o.allow_collide && c.chance(1, 40) ? Bytes(doc::collide[c.draw(4)]) : g.name();
                while(s.name.empty() || used.count(s.name)) s.name += "ab_"[c.draw(3)];
                used.insert(s.name); s.enc = (int)c.weighted({ 8, 1, 1 });
            }
            s.optional = o.optional && !pos && c.chance(1, 6);
            sc.push_back(s);
        }
    }
    g.big = false;
}
}
