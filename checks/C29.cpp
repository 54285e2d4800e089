// C29: running out of memory at any point is reported and leaves everything valid.
#include "bridge.hpp"
#include "names.hpp"
#include <sanitizer/allocator_interface.h>
#include <new>
#include <map>
#include <unordered_map>
using namespace doc; using namespace br;
PBT_MAIN("C29", "random operations (inserts of all kinds, lookups, writing, loading, storing, restoring and unpacking objects with owning and shared members, HTable and Heap histories) in which the n-th allocation fails, "
         "n drawn over all allocations the operation makes; the failure has to arrive as an exception, documents and tables have to be walkable with the other fields unchanged, the operation to work when repeated, and all "
         "memory to be given back; non-trivial: the failing allocation isn't the operation's first")

namespace mem {
bool armed = false; long left = -1, count = 0; bool fired = false;
void* get(size_t n, size_t al = 0)
{
    if(armed) { count++; if(left >= 0 && left-- == 0) { fired = true; throw std::bad_alloc(); } }
    void* p = nullptr; if(al > 16) { if(posix_memalign(&p, al, n)) p = nullptr; } else p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
}
void* operator new(size_t n) { return mem::get(n); }
void* operator new[](size_t n) { return mem::get(n); }
void* operator new(size_t n, std::align_val_t a) { return mem::get(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return mem::get(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

namespace {
struct Disarm { ~Disarm() { mem::armed = false; } };
// message of the exception, "" if none; the at-th allocation fails (-1: none)
template<class F> std::string guarded(long at, F&& fn)
{
    mem::count = 0; mem::fired = false; mem::left = at;
    try { Disarm d; mem::armed = true; fn(); } catch(const std::exception& e) { mem::armed = false; std::string w = e.what(); return w.empty() ? "exception" : w; }
    return "";
}
size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
std::string why;

// life(at) does everything from scratch; returns the number of allocations of the operation
template<class F> void each(Case& c, const std::string& what, F&& life, size_t tries = 6)
{
    c.note(what); life(-1L); long n = life(-1L); c.note("allocations: ", n); c.label(what);
    if(n < 1) throw pbt::Discard{};
    for(size_t i = 0; i < tries; i++) {
        long at = n <= (long)tries ? (long)i : (long)c.draw((uint64_t)n); if(at >= n) break;
        c.nontrivial(at > 0);
        bool left = false; for(int k = 0; k < 3; k++) { auto b = bytes(); life(at); left = bytes() != b; if(!left) break; c.note("bytes more: ", (long)bytes() - (long)b); }
        CHECK(c, !left, what << ", allocation " << at << " of " << n << " failing: memory left over");
    }
}
struct Sub { std::string s; int n = 0; std::vector<std::string> v; void srl_resolve(Srl::Context& c) { c("s", s)("n", n)("v", v); } bool operator==(const Sub& o) const { return s == o.s && n == o.n && v == o.v; } };
struct Poly { std::string p; virtual ~Poly() { } virtual const Srl::TypeID& srl_type_id(); virtual void srl_resolve(Srl::Context& c) { c("p", p); } };
struct Derived : Poly { std::list<std::string> more; const Srl::TypeID& srl_type_id() override; void srl_resolve(Srl::Context& c) override { Poly::srl_resolve(c); c("more", more); } };
}
namespace { const auto reg_p = Srl::register_type<Poly>("Poly of C29"); const auto reg_d = Srl::register_type<Derived>("Derived of C29");
const Srl::TypeID& Poly::srl_type_id() { return reg_p; } const Srl::TypeID& Derived::srl_type_id() { return reg_d; }
template<class T> bool same(const T& a, const T& b) { return !a == !b && (!a || *a == *b); }
struct All {
    std::string s; std::u16string w; std::vector<std::string> v; std::list<Sub> l; std::map<std::string, Sub> m; std::unordered_map<int, std::string> um; std::unique_ptr<Sub> u; std::shared_ptr<Sub> a, b; std::weak_ptr<Sub> wk;
    std::unique_ptr<Poly> p; std::vector<std::shared_ptr<Poly>> ps; int* raw = nullptr; Sub* rsub = nullptr; std::vector<uint8_t> bin; Srl::Lib::HTable<std::string, std::string> h; std::pair<std::string, std::vector<int>> pr; std::tuple<std::string, int> tp; std::vector<std::vector<double>> vv;
    unsigned mask = ~0u;
    All() { } All(const All&) = delete; ~All() { delete raw; delete rsub; }
    void srl_resolve(Srl::Context& c)
    {
        auto x = [&](int i) { return mask >> i & 1; };
        if(x(0)) c("s", s); if(x(1)) c("w", w); if(x(2)) c("v", v); if(x(3)) c("l", l); if(x(4)) c("m", m); if(x(5)) c("um", um); if(x(6)) c("u", u); if(x(7)) c("a", a)("b", b)("wk", wk); if(x(8)) c("p", p); if(x(9)) c("ps", ps);
        if(x(10)) c("raw", raw); if(x(11)) c("rsub", rsub); if(x(12)) { Srl::VecWrap<uint8_t> vw(bin); c("a binary member", vw); } if(x(13)) c("h", h); if(x(14)) c("pr", pr); if(x(15)) c("tp", tp); if(x(16)) c("vv", vv);
    }
    void gen(Case& c, Gen& g)
    {
        auto sub = [&] { Sub r; r.s = g.text(30); r.n = (int)c.draw(1000); for(size_t n = c.draw(3); n--;) r.v.push_back(g.text(30)); return r; };
        auto poly = [&]() -> std::unique_ptr<Poly> { if(c.flip()) { auto d = std::make_unique<Derived>(); d->p = g.text(20); for(size_t n = c.draw(3); n--;) d->more.push_back(g.text(30)); return d; } auto d = std::make_unique<Poly>(); d->p = g.text(20); return d; };
        s = g.text(40); w = to16(from_utf8(g.text(30))); for(size_t n = c.draw(4); n--;) v.push_back(g.text(30)); for(size_t n = c.draw(3); n--;) l.push_back(sub()); for(size_t n = c.draw(3); n--;) m[g.text(20)] = sub(); for(size_t n = c.draw(3); n--;) um[(int)n] = g.text(30);
        u.reset(new Sub(sub())); a.reset(new Sub(sub())); if(c.flip()) b = a; else b.reset(new Sub(sub())); wk = b; p = poly(); for(size_t n = c.draw(3); n--;) ps.push_back(c.flip() && ps.size() ? ps[0] : std::shared_ptr<Poly>(poly()));
        raw = new int(5); rsub = new Sub(sub()); auto bl = g.blob(40); bin.assign(bl.begin(), bl.end()); for(size_t n = c.draw(3); n--;) { std::string k = "k" + std::to_string(n), x = g.text(20); h.insert(k, x); } pr = { g.text(20), { 1, 2, 3 } }; tp = std::make_tuple(g.text(20), 7); for(size_t n = c.draw(3); n--;) vv.push_back({ 1.5, 2.5 });
    }
};
}
// documents
PBT_TEST(documents, 22000, 400000)
{
    Gen g(c); g.big = false; g.max_depth = 4; Doc d = g.tree(2, 30); Fmt f = pick_fmt(c); Doc x = c.flip() ? Doc::obj() : g.tree(2, 20); if(d.k == Arr) for(auto& m : d.m) m.first.clear();
    Bytes nm = c.chance(1, 3) ? g.name() : Bytes("a field name of more than eight bytes"); std::vector<uint32_t> cp; bool ok = false; cp = from_utf8(nm, &ok); std::u16string wide = ok ? to16(cp) : u"another name of some length"; bool w = c.flip();
    size_t how = c.draw(13); Doc v = g.scalar(); std::string text = g.text(60); Bytes b = encode(f, x.k == Arr ? x : x); if(text.size() < 9) text += "some more text"; auto via = pick_via(c); auto chunk = pick_chunk(c); bool stream = c.flip();
    All obj; if(how == 4 || how == 9) { obj.gen(c, g); obj.mask = (unsigned)(c.draw64() & c.draw64()); }
    std::vector<std::string> list; for(size_t n = c.draw(5); n--;) list.push_back(g.text(30));
    static const char* const names[] = { "insert a text", "insert a scalar", "insert a list", "insert a node of another tree", "insert an object", "look up", "write", "Node::to_source", "load", "load_object", "unwrap", "insert an own node", "remove" };
    each(c, names[how], [&](long at) -> long {
        Srl::Tree t, other; make(t, d); make(other, x); auto& r = t.root(); size_t nv = r.num_values(), nn = r.num_nodes(); Doc before = dump(r); Doc wx = Doc::obj(); wx.m.emplace_back(nm, v); std::string out;
        Srl::String wname = w ? Srl::String(wide) : Srl::String(nm); std::vector<uint8_t> o; std::ostringstream os; Bytes lookup = d.m.size() ? d.m.back().first : nm;
        auto op = [&] {
            switch(how) {
                case 0: r.insert(wname, text); break;
                case 1: build(r, wx); break;
                case 2: r.insert(wname, list); break;
                case 3: r.insert(wname, other.root()); break;
                case 4: r.insert(wname, obj); break;
                case 5: { r.has_value(wname); r.find_nodes(wname, true); r.find_values(wname, true); r.all_values(true); r.all_nodes(true); (void)r.try_get(wname); break; }
                case 6: with(f, [&](auto& p) { if(stream) t.to_source(os, p); else o = t.to_source(p); }); break;
                case 7: with(f, [&](auto& p) { o = r.to_source(p); }); break;
                case 8: load(t, f, b, via, chunk); break;
                case 9: t.load_object(obj); break;
                case 11: if(nn) r.insert(wname, r.node(nn - 1)); else r.insert(wname, text); break;
                case 12: if(r.num_nodes()) r.remove_node(r.num_nodes() - 1); if(r.num_values()) r.remove_value((size_t)0); if(r.num_nodes()) r.remove_node(r.node((size_t)0).name()); break;
                default: for(size_t i = 0; i < r.num_values(); i++) { auto& q = r.value(i); if(q.type() == Srl::Type::String) q.unwrap<std::u32string>(); } r.unwrap_field<std::string>(wname); break;
            } };
        auto e = guarded(at, op); long n = mem::count; bool fired = mem::fired;
        if(at < 0 && how != 10) CHECK(c, e.empty(), names[how] << " threw " << e);
        if(fired && e.size()) {
            auto& r2 = t.root(); Doc now = dump(r2);
            if(how < 5 || how == 11) { // what was there is still there, at most one more field
                CHECK(c, now.m.size() <= before.m.size() + 1 && r2.num_values() >= nv && r2.num_nodes() >= nn, names[how] << ": fields lost: " << show(before, 500) << " became " << show(now, 500));
                Doc part = now; Bytes xname; if(r2.num_nodes() > nn) { xname = part.m.back().first; part.m.pop_back(); CHECK(c, how && xname == nm, names[how] << ": an item named " << quote(xname, 100) << " is left, expected " << quote(nm, 100)); }
                CHECK(c, r2.num_values() == nv, names[how] << ": a value which couldn't be inserted is left: " << show(now, 500));
                CHECK(c, equal(part, before, &why), names[how] << ": other fields changed: " << why);
            } else if(how != 8 && how != 9 && how != 12) CHECK(c, equal(now, before, &why), names[how] << ": document changed: " << why);
            // repeated, and written
            os.str(""); os.clear(); e = guarded(-1, op); CHECK(c, e.empty() || how == 10, names[how] << " repeated: threw " << e);
            Doc again = dump(t.root());
            if(how == 8) CHECK(c, equal(norm(again), norm(expect(f, x)), &why) || text_equal(norm(again), norm(x), &why), names[how] << " repeated: " << why);
            else if(how < 5 || how == 11) CHECK(c, again.m.size() == now.m.size() + 1, names[how] << " repeated: not one field more");
            else if(how == 6) CHECK(c, text_equal(norm(decode(f, stream ? os.str() : str(o))), norm(before), &why), names[how] << " repeated: " << why);
            { auto wr = thrown([&] { Fmt k = SR; auto s = write(t, k); CHECK(c, equal(norm(decode(k, s)), norm(again), &why), names[how] << ", then written: " << why); }); CHECK(c, wr.empty(), "writing afterwards threw " << wr); }
            if(at % 2) t.clear();
        }
        return n;
    });
}
// objects
PBT_TEST(objects, 14000, 300000)
{
    Gen g(c); g.big = false; All obj; obj.gen(c, g); obj.mask = c.chance(1, 4) ? ~0u : (unsigned)(c.draw64() & (c.flip() ? ~0ull : c.draw64())); Fmt f = pick_fmt(c); Bytes b, pb; with(f, [&](auto& p) { b = str(Srl::Tree().store(obj, p)); std::vector<uint8_t> v; Srl::Tree().pack(v, p, "first", 1, "obj", obj, "last", obj.s); pb = str(v); });
    c.note("format ", (int)f, ", object: ", quote(b, 400)); size_t how = c.draw(6); bool populated = c.flip(); auto via = pick_via(c); auto chunk = pick_chunk(c); bool same_tree = c.flip();
    static const char* const names[] = { "restore", "load + paste", "unpack", "store", "pack", "unpack out of order" };
    each(c, names[how], [&](long at) -> long {
        Srl::Tree t; All r; r.mask = obj.mask; std::vector<uint8_t> o; std::string last; int first = 0;
        if(populated) with(f, [&](auto& p) { t.restore(r, (const uint8_t*)b.data(), b.size(), p); });
        auto op = [&](Srl::Tree& t) {
            switch(how) {
                case 0: source(via, b, chunk, [&](auto& s) { with(f, [&](auto& p) { t.restore(r, s, p); }); }); break;
                case 1: load(t, f, b, via, chunk); t.root().paste(r); break;
                case 2: source(via, pb, chunk, [&](auto& s) { with(f, [&](auto& p) { t.unpack(s, p, "first", first, "obj", r, "last", last); }); }); break;
                case 3: with(f, [&](auto& p) { o = t.store(obj, p); }); break;
                case 4: with(f, [&](auto& p) { o.clear(); t.pack(o, p, "first", 1, "obj", obj, "last", obj.s); }); break;
                default: source(via, pb, chunk, [&](auto& s) { with(f, [&](auto& p) { t.unpack(s, p, "last", last, "obj", r, "first", first); }); }); break;
            } };
        auto e = guarded(at, [&] { op(t); }); long n = mem::count; bool fired = mem::fired;
        if(at < 0) CHECK(c, e.empty(), names[how] << " threw " << e);
        if(e.size()) {
            CHECK(c, fired, names[how] << " threw " << e);
            Srl::Tree fresh; e = guarded(-1, [&] { op(same_tree ? t : fresh); }); CHECK(c, e.empty(), names[how] << " repeated: threw " << e);
        }
        if(how == 3 || how == 4) CHECK(c, str(o) == (how == 3 ? b : pb), names[how] << " wrote something else");
        else { auto again = with(f, [&](auto& p) { return str(Srl::Tree().store(r, p)); }); CHECK(c, again.size() == b.size() && (again == b || obj.um.size() > 1 || obj.mask & (1 << 13)), names[how] << " gave another object:\n" << quote(b, 700) << "\n" << quote(again, 700)); }
        return n;
    });
}
// tables: key and value own memory, the value's constructors throw on demand
namespace {
int bomb = -1; struct Boom : std::exception { const char* what() const noexcept override { return "boom"; } };
void tick() { if(bomb >= 0 && bomb-- == 0) throw Boom(); }
struct Val { std::string s; static long live; bool moved = false;
    Val(const std::string& x) : s(x) { tick(); live++; } Val(const Val& o) : s(o.s) { tick(); live++; } Val(Val&& o) noexcept : s(std::move(o.s)) { o.moved = true; live++; } ~Val() { live--; } };
long Val::live = 0;
}
PBT_TEST(tables, 16000, 300000)
{
    typedef Srl::Lib::HTable<std::string, Val> T; size_t start = c.draw(40), buckets = c.pickl<size_t>({ 0, 1, 4, 16, 64 }), more = 1 + c.draw(40), how = c.draw(7); bool user = c.flip(); uint64_t which = c.draw64(), mod = 1 + c.draw(4);
    auto k = [](size_t i) { return "a key with the number " + std::to_string(i); }; auto v = [](size_t i) { return "the value of the entry number " + std::to_string(i); }; auto nv = [](size_t i) { return "another value for the entry number " + std::to_string(i); };
    static const char* const names[] = { "HTable insert", "HTable upsert", "HTable construct and insert", "HTable upsert of present entries", "HTable remove", "HTable extract", "HTable remove_if" };
    if(how > 2 && !start) start = 3;
    auto sel = [&](size_t i) { return (which >> (i % 64) & 1) || i % mod == 0; };
    each(c, names[how], [&](long at) -> long {
        bomb = -1; Val::live = 0; long n;
        {
        T t(buckets); std::vector<std::string> ks, vs, nvs; for(size_t i = 0; i < start + more; i++) { ks.push_back(k(i)); vs.push_back(v(i)); nvs.push_back(nv(i)); }
        for(size_t i = 0; i < start; i++) { t.insert(ks[i], vs[i]); }
        size_t i = 0; bool in_user = user && at >= 0; std::vector<bool> gone(start + more); for(size_t q = start; q < start + more; q++) gone[q] = true; std::vector<int> val(start + more);
        auto e = guarded(in_user ? -1 : at, [&] {
            if(in_user) bomb = (int)(at % 8);
            switch(how) {
                case 2: { T u(buckets); for(; i < more; i++) u.insert(ks[i], vs[i]); break; }
                case 3: for(; i < start; i++) if(sel(i)) { auto r = t.upsert(ks[i], nvs[i]); val[i] = 1; if(!r.first || r.second->s != nvs[i]) throw Srl::Exception("upsert"); } break;
                case 4: for(; i < start; i++) if(sel(i)) { t.remove(ks[i]); gone[i] = true; } break;
                case 5: for(; i < start; i++) if(sel(i)) { auto o = t.extract(ks[i]); gone[i] = true; if(!o || o->s != vs[i]) throw Srl::Exception("extract"); } break;
                case 6: t.remove_if([&](const std::string& key, Val&) { tick(); size_t q = std::stoul(key.substr(key.rfind(' ') + 1)); if(sel(q)) { gone[q] = true; return true; } return false; }); break;
                default: for(i = start; i < start + more; i++) { if(how == 0) t.insert(ks[i], vs[i]); else t.upsert(ks[i], vs[i]); gone[i] = false; } } });
        n = mem::count; bomb = -1; if(n < 1) n = (how == 4 || how == 5) ? 0 : n; if(user && at < 0) n = std::max(n, 8L);
        if(at < 0) CHECK(c, e.empty(), names[how] << " threw " << e);
        CHECK(c, e.empty() || mem::fired || e == "boom", names[how] << " threw " << e);
        if((how == 4 || how == 5) && !in_user && at >= 0) CHECK(c, e.empty() || how == 5, names[how] << " threw " << e);
        auto check = [&] {
            size_t want = 0; std::vector<int> seen(ks.size()); for(size_t q = 0; q < ks.size(); q++) want += !gone[q];
            CHECK(c, t.num_entries() == want, names[how] << ": " << t.num_entries() << " entries, expected " << want << (e.empty() ? "" : " after " + e));
            t.foreach([&](const std::string& key, Val& x) { size_t q = std::stoul(key.substr(key.rfind(' ') + 1)); CHECK(c, q < ks.size() && !gone[q], names[how] << ": entry " << key << " shouldn't be there"); seen[q]++; CHECK(c, x.s == (val[q] ? nvs[q] : vs[q]), names[how] << ": entry " << key << " has the value " << x.s); });
            size_t it = 0; for(auto kv : t) { (void)kv; it++; } CHECK(c, it == want, names[how] << ": " << it << " entries iterated");
            for(size_t q = 0; q < ks.size(); q++) { auto* x = t.get(ks[q]); CHECK(c, !x == gone[q] && seen[q] == !gone[q], names[how] << ": entry " << ks[q] << (x ? " found" : " not found") << ", visited " << seen[q] << " times"); }
            CHECK(c, Val::live == (long)want, names[how] << ": " << Val::live << " values alive, expected " << want); };
        check();
        // goes on
        for(size_t q = 0; q < ks.size(); q++) if(gone[q]) { auto r = t.insert(ks[q], vs[q]); gone[q] = false; val[q] = 0; CHECK(c, !r.first, "insert says " << ks[q] << " existed"); }
        check();
        }
        CHECK(c, Val::live == 0, names[how] << ": " << Val::live << " values not destroyed");
        return n;
    });
}
// heaps
PBT_TEST(heaps, 8000, 100000)
{
    struct Req { int what; size_t size; }; std::vector<Req> rs; for(size_t n = 1 + c.draw(40); n--;) rs.push_back({ (int)c.draw(4), c.chance(1, 4) ? c.draw(9000) : c.draw(300) });
    each(c, "Heap", [&](long at) -> long {
        Srl::Lib::Heap h; struct B { uint8_t* p; size_t n; uint8_t pat; }; std::vector<B> bl; bl.reserve(200); size_t i = 0;
        auto go = [&] { for(; i < rs.size(); i++) { auto& r = rs[i]; if(r.what == 3 && bl.size()) { h.put_mem(bl.back().p, bl.back().n); bl.pop_back(); continue; } if(!r.size) continue; uint8_t* p = h.get_mem<uint8_t>(r.size); uint8_t pat = (uint8_t)(i * 7 + 1); memset(p, pat, r.size); bl.push_back({ p, r.size, pat }); } };
        auto check = [&] { for(size_t a = 0; a < bl.size(); a++) for(size_t q = 0; q < bl[a].n; q++) CHECK(c, bl[a].p[q] == bl[a].pat, "block " << a << " was overwritten"); };
        auto e = guarded(at, go); long n = mem::count; bool fired = mem::fired; if(at < 0) CHECK(c, e.empty(), "Heap threw " << e);
        CHECK(c, fired || e.empty(), "Heap threw " << e); check(); if(e.size()) { go(); check(); h.clear(); bl.clear(); i = 0; go(); check(); }
        return n;
    });
}
