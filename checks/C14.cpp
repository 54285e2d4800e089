// C14: checked access (Union, get, try_get, unwrap_if) never lies.
#include "names.hpp"
#include <map>
#include <set>
using namespace doc; using namespace br;
PBT_MAIN("C14", "random documents (built, or loaded from every format), every field and random chains of present/absent names from Tree, Node and Union, requested as ~16 scalar/scope types, and Unions filled by unpack; "
         "oracle: the document model for what denotes what and for the right value, and agreement of the throwing, copying, converting and optional forms; non-trivial: a chain hit a missing or non-node step or a conversion had to be refused")

namespace {
struct S { int64_t a = -1; std::string b = "unset"; void srl_resolve(Srl::Context& ctx) { ctx("a", a)("b", b); } bool operator==(const S& o) const { return a == o.a && b == o.b; } };
struct Opt { int64_t a = -1; void srl_resolve(Srl::Context& ctx) { ctx("a", a, Srl::CtxFlags::Optional); } bool operator==(const Opt& o) const { return a == o.a; } };
// user code which refuses values by exceptions of its own
struct Picky { int64_t a = -1; void srl_resolve(Srl::Context& ctx) { ctx("a", a); if(a & 1) throw std::runtime_error("odd"); } bool operator==(const Picky& o) const { return a == o.a; } };
struct Rude { int64_t a = -1; void srl_resolve(Srl::Context& ctx) { ctx("a", a); if(a & 1) throw 42; } bool operator==(const Rude& o) const { return a == o.a; } };
enum Want { Unknown, Throws, Gives };

// what the model can say without knowing the library
template<class T> Want want(const Doc& d, T& v)
{
    constexpr bool scope = Srl::TpTools::is_scope(Srl::Lib::Switch<T>::type);
    if(d.scope() != scope) return Throws;
    if constexpr(std::is_same<T, char>::value) { if(d.k == Int || d.k == Flt || d.k == Bool) return Throws; } else if constexpr(std::is_same<T, bool>::value) {
        if(d.k == Bool) { v = d.b; return Gives; }
        if(d.k == Int) { if(d.i == 0 || d.i == 1) { v = d.i; return Gives; } return Throws; }
    } else if constexpr(std::is_integral<T>::value) {
        if(d.k == Int) { if(d.i < std::numeric_limits<T>::min() || d.i > std::numeric_limits<T>::max()) return Throws; v = (T)d.i; return Gives; }
        if(d.k == Bool) { v = d.b; return Gives; }
        if(d.k == Flt && !std::isfinite(d.f)) return Throws;
    } else if constexpr(std::is_floating_point<T>::value) {
        if(d.k == Flt && (sizeof(T) == 8 || (double)(float)d.f == d.f)) { v = (T)d.f; return Gives; }
        if(d.k == Int && d.i > -(1 << 24) && d.i < (1 << 24)) { v = (T)d.i; return Gives; }
    } else if constexpr(std::is_same<T, std::string>::value) {
        if(d.k == Str) { v = d.s; return Gives; }
        if(d.k == Bool) { v = d.b ? "true" : "false"; return Gives; }
        if(d.k == Int) { v = i128(d.i); return Gives; }
    } else if constexpr(std::is_same<T, std::vector<int>>::value || std::is_same<T, std::set<int>>::value) {
        for(auto& m : d.m) { if(m.second.k == Int && m.second.i >= INT32_MIN && m.second.i <= INT32_MAX) { v.insert(v.end(), (int)m.second.i); continue; } if(d.k == Arr && m.second.k == Int) return Throws; return Unknown; }
        if(d.k == Arr) return Gives;
    } else if constexpr(std::is_same<T, Picky>::value) {
        if(d.k != Obj) return Unknown;
        for(auto& m : d.m) if(m.first == "a" && !m.second.scope()) { if(want(m.second, v.a) != Gives || m.second.k != Int) return Unknown; return v.a & 1 ? Throws : Gives; }
        return Throws;
    } else if constexpr(std::is_same<T, S>::value) {
        if(d.k != Obj) return Unknown;
        const Doc *a = nullptr, *b = nullptr; for(auto& m : d.m) { if(m.second.scope()) continue; if(m.first == "a" && !a) a = &m.second; if(m.first == "b" && !b) b = &m.second; }
        if(!a || !b) return Throws;
        S s; if(want(*a, s.a) == Gives && want(*b, s.b) == Gives) { v = s; return Gives; }
    }
    return Unknown;
}
template<class T> bool eq(const T& a, const T& b) { return a == b; }
template<> bool eq(const double& a, const double& b) { return (a != a && b != b) || a == b; }
template<> bool eq(const float& a, const float& b) { return (a != a && b != b) || a == b; }

template<class T> bool judge(Case& c, const Doc& d, Srl::Union u, const std::string& where, const char* tn)
{
    constexpr bool scope = Srl::TpTools::is_scope(Srl::Lib::Switch<T>::type);
    T w{}, a{}, b{}, cp{}, direct{}; auto wn = want(d, w);
    std::string e1 = thrown([&] { a = u.unwrap<T>(); });
    std::string e2 = thrown([&] { T t = u; b = t; });
    std::string e3 = thrown([&] { u.copy_to(cp); });
    std::string e4 = thrown([&] { if(d.scope() != scope) throw std::logic_error("kind"); if constexpr(scope) direct = u.node()->unwrap<T>(); else direct = u.value()->unwrap<T>(); });
    std::optional<T> o; std::string e5 = thrown([&] { o = u.template unwrap_if<T>(); });
    auto ctx = [&] { return where + " as " + tn + ": " + show(d, 300) + "\n"; };
    CHECK(c, e5.empty(), ctx() << "unwrap_if throws " << e5);
    CHECK(c, e1.empty() == e2.empty() && e1.empty() == e3.empty() && e1.empty() == e4.empty() && e1.empty() == o.has_value(),
          ctx() << "forms disagree: unwrap[" << e1 << "] convert[" << e2 << "] copy_to[" << e3 << "] direct[" << e4 << "] unwrap_if " << o.has_value());
    if(wn == Throws) CHECK(c, !e1.empty(), ctx() << "is given instead of refused");
    if(wn == Gives) { CHECK(c, e1.empty(), ctx() << "is refused: " << e1); CHECK(c, eq(a, w), ctx() << "wrong value"); }
    if(e1.empty()) CHECK(c, eq(a, b) && eq(a, cp) && eq(a, direct) && eq(a, *o), ctx() << "forms give different values");
    return !e1.empty();
}
bool all_types(Case& c, const Doc& d, Srl::Union u, const std::string& where)
{
    bool r = false;
#define J(...) r |= judge<__VA_ARGS__>(c, d, u, where, #__VA_ARGS__)
    J(int64_t); J(uint8_t); J(int16_t); J(uint64_t); J(bool); J(double); J(float); J(std::string); J(char);
    J(std::vector<int>); J(std::set<int>); J(std::list<std::string>); J(S); J(Opt); J(Picky); J(std::map<std::string, int>); J(std::pair<int, int>); J(std::vector<std::vector<int>>); J(std::vector<S>);
#undef J
    // exceptions which aren't derived from std::exception
    std::optional<Rude> o; int how = 0; try { u.unwrap<Rude>(); } catch(const std::exception&) { how = 1; } catch(int) { how = 2; }
    int opt = 0; try { o = u.unwrap_if<Rude>(); } catch(...) { opt = 1; }
    CHECK(c, !opt && o.has_value() == !how, where << " as a class throwing int: " << show(d, 300) << " unwrap " << how << ", unwrap_if " << (opt ? "throws" : o ? "gives a value" : "is empty"));
    return r;
}
const Doc* value_or_node(const Doc& d, const Bytes& nm)   // get: the value of the name first, then the node
{
    for(auto& m : d.m) if(!m.second.scope() && m.first == nm) return &m.second;
    for(auto& m : d.m) if(m.second.scope() && m.first == nm) return &m.second;
    return nullptr;
}
void denotes(Case& c, Srl::Union u, const Doc& d, const std::string& where)
{
    CHECK(c, u.is_node() == d.scope() && u.is_value() == !d.scope(), where << " denotes the wrong kind: " << show(d, 200));
    CHECK(c, !!u.node() == d.scope() && !!u.value() == !d.scope(), where << " gives the wrong kind of pointer");
    std::string w; Doc got = d.scope() ? dump(*u.node()) : dump(*u.value());
    CHECK(c, equal(norm(got), norm(d), &w), where << " denotes something else: " << w);
}
void check_empty(Case& c, Srl::Union u, const char* where)
{
    CHECK(c, !u.is_node() && !u.is_value() && !u.node() && !u.value(), where << ": empty union denotes something");
    CHECK(c, !thrown([&] { u.get("a"); }).empty() && !u.try_get("a"), where << ": get of an empty union");
    CHECK(c, !thrown([&] { u.unwrap<int>(); }).empty() && !thrown([&] { u.unwrap<S>(); }).empty() && !thrown([&] { int x; u.copy_to(x); }).empty() && !thrown([&] { S x; u.copy_to(x); }).empty(), where << ": unwrap of an empty union");
    CHECK(c, !u.unwrap_if<int>() && !u.unwrap_if<S>(), where << ": unwrap_if of an empty union");
}
void edit(Case& c, Gen& g, Doc& d, size_t depth = 0)     // plants fields which can be unwrapped as something
{
    if(d.k == Obj && c.chance(1, 2)) {
        switch(c.draw(5)) {
            case 0: d.m.emplace_back("a", Doc::integer(c.range(-300, 300))); break;
            case 1: d.m.emplace_back("b", Doc::str(g.text(5))); break;
            case 2: d.m.emplace_back("a", Doc::integer(c.range(-3, 3))); d.m.emplace_back("b", Doc::str("x")); break;
            case 3: { Doc s = Doc::obj(); s.m.emplace_back("a", Doc::integer(5)); s.m.emplace_back("b", Doc::str(g.ascii(4))); d.m.emplace_back("s", s); break; }
            default: { Doc s = Doc::arr(); size_t n = c.draw(5); for(size_t i = 0; i < n; i++) s.m.emplace_back("", c.chance(1, 8) ? g.scalar() : Doc::integer(c.range(-5, 300))); d.m.emplace_back("l", s); }
        }
    }
    if(depth < 5) for(auto& m : d.m) if(m.second.scope()) edit(c, g, m.second, depth + 1);
}
}

PBT_TEST(chains, 3000, 150000)
{
    Gen g(c); g.big = false; g.nonfinite = c.flip(); g.max_depth = 4;
    Doc d = g.tree(); d.k = Obj; edit(c, g, d);
    bool hard = false;
    Srl::Tree t; bool loaded = c.flip();
    if(loaded) { // only the formats which keep everything exactly
        Fmt f = c.flip() ? MP : SR; d = norm(d); load(t, f, encode(f, d), pick_via(c), pick_chunk(c));
    } else make(t, d, &c);
    c.note(loaded ? "loaded " : "built ", show(d, 600));
    // every field
    std::function<void(Srl::Node&, const Doc&, const std::string&)> walk = [&](Srl::Node& n, const Doc& x, const std::string& path) {
        size_t vi = 0, ni = 0;
        for(auto& m : x.m) {
            if(m.second.scope()) { Srl::Node& s = n.node(ni++); if(nodes(m.second) < 12) hard |= all_types(c, m.second, Srl::Union(s), path + "/" + m.first); denotes(c, Srl::Union(s), m.second, path + "/" + m.first); walk(s, m.second, path + "/" + m.first); }
            else { auto& v = n.value(vi++); denotes(c, Srl::Union(v), m.second, path + "/" + m.first); if(vi < 6) hard |= all_types(c, m.second, Srl::Union(v), path + "/" + m.first); }
        }
    };
    walk(t.root(), d, "");
    // chains
    size_t chains = 1 + c.draw(8);
    for(size_t k = 0; k < chains; k++) {
        const Doc* at = &d; std::optional<Srl::Union> u; std::string path = "tree"; bool dead = false;
        size_t len = 1 + c.draw(5);
        for(size_t i = 0; i < len && !dead; i++) {
            Bytes nm = at->scope() && at->m.size() && c.chance(4, 5) ? c.pick(at->m).first : c.flip() ? g.name() : Bytes("a");
            const Doc* next = at->scope() ? value_or_node(*at, nm) : nullptr;
            path += " > " + quote(nm);
            named(c, nm, [&](const Srl::String& q) {
                std::optional<Srl::Union> a, b; std::string e, e2;
                size_t how = u ? 0 : c.draw(3);
                e = thrown([&] { a = u ? u->get(q) : how == 0 ? t.get(q) : how == 1 ? t.root().get(q) : t.root()[q]; });
                e2 = thrown([&] { b = u ? u->try_get(q) : how == 0 ? t.try_get(q) : t.root().try_get(q); });
                CHECK(c, e2.empty(), path << ": try_get throws " << e2);
                CHECK(c, e.empty() == (next != nullptr), path << ": get " << (next ? "throws " + e : "doesn't throw"));
                CHECK(c, b.has_value() == (next != nullptr), path << ": try_get " << (next ? "is empty" : "isn't empty"));
                if(next) { denotes(c, *a, *next, path + " (get)"); denotes(c, *b, *next, path + " (try_get)"); CHECK(c, a->node() == b->node() && a->value() == b->value(), path << ": get and try_get differ"); u = c.flip() ? a : b; }
            });
            if(!next) { dead = true; hard = true; } else at = next;
        }
        if(u && !dead && nodes(*at) < 12) hard |= all_types(c, *at, *u, path);
    }
    check_empty(c, Srl::Union(), "default");
    c.nontrivial(hard);
}
// Unions filled from a source, together with typed items, in any order
PBT_TEST(unpacked, 8000, 400000)
{
    Gen g(c); g.big = false; g.dup_names = false; g.max_depth = 3;
    Fmt f = pick_fmt(c); Doc d = Doc::obj(); size_t n = 3 + c.draw(5);
    for(size_t i = 0; i < n; i++) { Doc x = c.flip() ? g.scalar() : g.tree(1, 8); if(c.chance(1, 3)) { x = c.flip() ? Doc::integer(c.range(-9, 9)) : Doc::str(g.text(5)); } d.m.emplace_back("item" + std::to_string(i), x); }
    auto b = encode(f, d); auto via = pick_via(c); size_t chunk = pick_chunk(c);
    size_t pool = n + (c.chance(1, 8) ? 1 : 0), p[3]; std::vector<size_t> left; for(size_t i = 0; i < pool; i++) left.push_back(i);
    for(auto& x : p) { size_t k = c.draw(left.size()); x = left[k]; left.erase(left.begin() + k); }
    bool missing = false; for(auto x : p) missing |= x >= n;
    c.note(name(f), " ", show(d, 500), " items ", p[0], " ", p[1], " ", p[2]);
    auto nm = [&](size_t i) { return "item" + std::to_string(i); };
    Srl::Tree t; Srl::Union u[3]; int64_t num = -77; bool typed = p[1] < n && d.m[p[1]].second.k == Int && d.m[p[1]].second.i < 10 && d.m[p[1]].second.i > -10;
    std::string n0 = nm(p[0]), n1 = nm(p[1]), n2 = nm(p[2]);
    bool pasted = c.chance(1, 3); // out of the loaded document
    auto e = thrown([&] {
        if(pasted) { load(t, f, b, via, chunk); if(typed) t.root().paste(n0, u[0], n1, num, n2, u[2]); else t.root().paste(n0, u[0], n1, u[1], n2, u[2]); }
        else with(f, [&](auto& ps) { source(via, b, chunk, [&](auto& s) { if(typed) t.unpack(s, ps, n0, u[0], n1, num, n2, u[2]); else t.unpack(s, ps, n0, u[0], n1, u[1], n2, u[2]); }); }); });
    c.nontrivial(p[0] > p[1] || p[1] > p[2] || missing);
    CHECK(c, e.empty() == !missing, "unpack: " << (missing ? "missing item not reported" : e));
    if(missing) return;
    Doc ex = expect(f, d); auto field = [&](const Bytes& k) -> const Doc& { for(auto& m : ex.m) if(m.first == k) return m.second; return ex; };
    for(int i = 0; i < 3; i++) {
        if(i == 1 && typed) { CHECK(c, num == (int64_t)d.m[p[1]].second.i, "typed item between unions: " << num); continue; }
        const Doc& x = field(nm(p[i]));
        CHECK(c, u[i].is_node() == x.scope() && u[i].is_value() == !x.scope(), "unpacked union " << nm(p[i]) << " denotes the wrong kind");
        std::string w; Doc got = x.scope() ? dump(*u[i].node()) : dump(*u[i].value());
        CHECK(c, text(f) ? text_equal(got, x, &w) : equal(norm(got), x, &w), "unpacked union " << nm(p[i]) << ": " << w << "\n" << show(got, 300));
        if(!text(f) && nodes(x) < 10) all_types(c, x, u[i], nm(p[i]));
    }
}
