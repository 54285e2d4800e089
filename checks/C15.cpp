// C15: HTable behaves like an associative map under any operation history.
#include "pbt.hpp"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <map>
#include <memory>
#include <set>
PBT_MAIN("C15", "random histories (insert, upsert, get, remove, remove_if, extract, clear, move, bulk growth) on up to three tables against std::map, for key/value types with counted instances, random bucket "
         "counts, load factors and (degenerate) hash functions; entry addresses are tracked; non-trivial: the history removed entries and also grew a table beyond its initial limit or reused a removed/cleared/moved table")
using pbt::Case;

namespace {
int live = 0;                        // instances of Val/Key
struct Cnt {                         // instance-counted payload with heap memory and a canary
    std::unique_ptr<std::string> s; uint32_t canary = 0xC0FFEE;
    explicit Cnt(uint64_t v) : s(new std::string("value number " + std::to_string(v))) { live++; }
    Cnt(const Cnt& o) : s(new std::string(*o.s)) { live++; }
    Cnt(Cnt&& o) : s(std::move(o.s)) { live++; }
    Cnt& operator=(Cnt&& o) { s = std::move(o.s); return *this; }
    ~Cnt() { if(canary != 0xC0FFEE) abort(); canary = 0xDEAD; live--; }
    bool operator==(const Cnt& o) const { return *s == *o.s; }
    bool operator<(const Cnt& o) const { return *s < *o.s; }
};
// key from number
template<class K> K key(uint64_t i) { return (K)i; }
template<> std::string key(uint64_t i) { return i % 3 == 0 ? "k" + std::to_string(i) : i % 3 == 1 ? std::string(i % 40, 'x') + std::to_string(i) : std::string("\0\1", 2) + std::to_string(i); }
template<> Cnt key(uint64_t i) { return Cnt(i); }
template<class V> V val(uint64_t i) { return (V)i; }
template<> std::string val(uint64_t i) { return "v" + std::to_string(i) + std::string(i % 30, '.'); }
template<> Cnt val(uint64_t i) { return Cnt(i); }
template<> std::unique_ptr<int> val(uint64_t i) { return std::unique_ptr<int>(new int((int)i)); }
template<class V> bool is(const V& v, uint64_t i) { return v == val<V>(i); }
template<> bool is(const std::unique_ptr<int>& v, uint64_t i) { return v && *v == (int)i; }

thread_local int hash_mode = 0;
template<class K> struct H {
    uint64_t operator()(const K& k) const
    {
        uint64_t h = base(k);
        switch(hash_mode) { case 0: return h; case 1: return 7; case 2: return h & 3; case 3: return h << 32; case 4: return h << 56; case 5: return (h & 1) ? ~0ull : 0; default: return h * 0x9E3779B97F4A7C15ull; }
    }
    static uint64_t base(const std::string& s) { return pbt::fnv(s.data(), s.size()); }
    static uint64_t base(const Cnt& s) { return base(*s.s); }
    static uint64_t base(uint64_t i) { return i; }
};
template<class K> struct NatHash : Srl::Lib::HashSrl<K> { };

struct M { uint64_t v; const void* at; };

template<class K, class V, class HF> void run(Case& c)
{
    using Tbl = Srl::Lib::HTable<K, V, HF>;
    live = 0;
    bool grew = false, removed = false, reused = false;
    {
        struct One { std::unique_ptr<Tbl> t; std::map<uint64_t, M> m; bool used_up = false; };
        std::vector<One> ts(1 + c.draw(3));
        auto fresh = [&](One& o) {
            size_t b = c.pickl<size_t>({ 64, 0, 1, 2, 3, 7, 16, 100 }); double lf = c.pickl<double>({ 1.0, 0.0, 0.1, 0.5, 0.9, 2.0, 10.0, -1.0 });
            c.note("fresh table, buckets ", b, " load factor ", lf);
            o.t.reset(b == 64 && lf == 1.0 ? new Tbl() : new Tbl(b, lf)); o.m.clear(); o.used_up = false;
        };
        for(auto& o : ts) fresh(o);
        uint64_t pool = c.pickl<uint64_t>({ 4, 12, 40, 300 });
        uint64_t next_val = 1, next_key = 1000000;
        auto K_ = [](uint64_t i) { return key<K>(i); };
        auto full_check = [&](One& o, const char* when) {
            Tbl& t = *o.t;
            CHECK(c, t.num_entries() == o.m.size(), when << ": num_entries " << t.num_entries() << ", expected " << o.m.size());
            std::map<const void*, int> seen;
            for(auto& e : o.m) {
                V* v = t.get(K_(e.first));
                CHECK(c, v, when << ": key " << e.first << " is missing");
                CHECK(c, is(*v, e.second.v), when << ": key " << e.first << " has another value than " << e.second.v);
                CHECK(c, v == e.second.at, when << ": entry " << e.first << " moved in memory");
                seen[v] = 0;
            }
            std::vector<K> keys; keys.reserve(o.m.size()); for(auto& e : o.m) keys.push_back(K_(e.first));
            auto visit = [&](const char* how, const K& k, V& v) {
                auto i = seen.find(&v); CHECK(c, i != seen.end(), when << ": " << how << " visits an entry which isn't there");
                CHECK(c, ++i->second == 1, when << ": " << how << " visits an entry twice");
                CHECK(c, t.get(k) == &v, when << ": " << how << " gives a key which belongs to another entry");
            };
            auto all = [&](const char* how, int n) { for(auto& s : seen) { CHECK(c, s.second == n, when << ": " << how << " missed an entry"); s.second = 0; } };
            t.foreach([&](const K& k, V& v) { visit("foreach", k, v); }); all("foreach", 1);
            size_t guard = 0;
            for(auto it = t.begin(); it != t.end(); ++it) { auto e = *it; visit("iterator", e.first, e.second); CHECK(c, ++guard <= o.m.size(), when << ": iteration doesn't end"); } { auto it = t.end(); ++it; CHECK(c, !(it != t.end()), when << ": end can be advanced"); bool th = false; try { (void)*it; } catch(const Srl::Exception&) { th = true; } CHECK(c, th, when << ": end can be dereferenced"); } all("iteration", 1);
            size_t stop = c.draw(o.m.size() + 2), n = 0;
            t.foreach_break([&](const K& k, V& v) { visit("foreach_break", k, v); return ++n == stop; });
            CHECK(c, n == (stop == 0 ? o.m.size() : std::min(stop, o.m.size())), when << ": foreach_break made " << n << " calls, asked to stop after " << stop << " of " << o.m.size());
        };
        auto put = [&](One& o, uint64_t k, bool up) {
            uint64_t v = next_val++; size_t before = o.m.size(); auto i = o.m.find(k);
            std::pair<bool, V*> r; K kk = K_(k);
            if(up) r = c.flip() ? o.t->upsert(kk, val<V>(v)) : o.t->upsert(K_(k), val<V>(v));
            else   r = c.flip() ? o.t->insert(kk, val<V>(v)) : o.t->insert(K_(k), val<V>(v));
            CHECK(c, r.first == (i != o.m.end()), (up ? "upsert" : "insert") << " of key " << k << " reports existing=" << r.first);
            CHECK(c, r.second, "no entry returned");
            if(i == o.m.end()) o.m[k] = M{ v, r.second };
            else { CHECK(c, r.second == i->second.at, "the entry of key " << k << " moved or another one was returned"); if(up) i->second.v = v; }
            CHECK(c, is(*r.second, o.m[k].v), "entry returned for key " << k << " has a wrong value");
            CHECK(c, o.t->num_entries() == before + (i == o.m.end()), "count after insert");
            if(o.used_up) reused = true;
        };
        size_t ops = 3 + c.size(120);
        for(size_t n = 0; n < ops; n++) {
            auto& o = ts[c.draw(ts.size())]; Tbl& t = *o.t;
            uint64_t k = c.draw(pool);
            switch(c.weighted({ 22, 14, 10, 18, 5, 10, 3, 5, 4, 3, 4 })) {
                case 0: c.note("insert ", k); put(o, k, false); break;
                case 1: c.note("upsert ", k); put(o, k, true); break;
                case 2: { c.note("get ", k); V* v = t.get(K_(k)); auto i = o.m.find(k);
                    CHECK(c, !!v == (i != o.m.end()), "get " << k << (v ? " found a removed key" : " missed the key")); if(v) CHECK(c, is(*v, i->second.v) && v == i->second.at, "get " << k << ": wrong entry"); break; }
                case 3: { c.note("remove ", k); bool had = o.m.erase(k); t.remove(K_(k)); removed |= had; if(had) o.used_up = true; CHECK(c, t.num_entries() == o.m.size(), "count after remove"); CHECK(c, !t.get(K_(k)), "removed key " << k << " still found"); break; }
                case 4: { // remove_if over a predicate on the value
                    uint64_t mod = 1 + c.draw(4), r = c.draw(mod); c.note("remove_if value%", mod, "==", r); size_t calls = 0, had = o.m.size();
                    std::map<const void*, uint64_t> at; for(auto& e : o.m) at[e.second.at] = e.first;
                    t.remove_if([&](const K& kk, V& v) { calls++; auto i = at.find(&v); if(i == at.end()) { c.fail("remove_if visits an unknown entry"); } if(!(kk == K_(i->second))) c.fail("remove_if: wrong key");
                        uint64_t id = i->second; at.erase(i); if(o.m.at(id).v % mod == r) { o.m.erase(id); return true; } return false; });
                    CHECK(c, calls == had, "remove_if visited " << calls << " of " << had << " entries"); if(o.m.size() != had) { removed = true; o.used_up = true; }
                    full_check(o, "after remove_if"); break; }
                case 5: { c.note("extract ", k); auto i = o.m.find(k); auto r = t.extract(K_(k));
                    CHECK(c, r.has_value() == (i != o.m.end()), "extract " << k); if(i != o.m.end()) { CHECK(c, is(*r, i->second.v), "extract " << k << " gives a wrong value"); o.m.erase(i); removed = true; o.used_up = true; }
                    CHECK(c, !t.get(K_(k)), "extracted key still found"); break; }
                case 6: c.note("clear"); if(o.m.size()) { removed = true; o.used_up = true; } t.clear(); o.m.clear(); full_check(o, "after clear"); break;
                case 7: { size_t cnt = 1 + c.size(150); c.note("bulk insert ", cnt); if(o.m.size() + cnt > 70) grew = true; bool seq = c.flip();
                    for(size_t i = 0; i < cnt; i++) put(o, seq ? next_key++ : c.draw(4 * pool), c.chance(1, 8)); full_check(o, "after growth"); break; }
                case 8: { // move
                    auto& d = ts[c.draw(ts.size())]; if(&d == &o) break;
                    c.note("move assign"); *d.t = std::move(t); d.m = std::move(o.m); o.m.clear(); d.used_up = true; o.used_up = true;
                    full_check(d, "after move, target"); full_check(o, "after move, source"); break; }
                case 9: { c.note("move construct"); std::unique_ptr<Tbl> src(new Tbl(std::move(t))); o.t.swap(src); o.used_up = true;     // src: the moved-from table
                    full_check(o, "after move construction");
                    CHECK(c, src->num_entries() == 0 && !src->get(K_(k)), "moved-from table isn't empty");
                    if(c.flip()) { auto r = src->insert(K_(k), val<V>(n)); CHECK(c, !r.first && is(*src->get(K_(k)), n) && src->num_entries() == 1, "moved-from table isn't usable"); full_check(o, "after using the moved-from table"); }
                    src.reset(); full_check(o, "after destruction of the moved-from table"); break; }
                default: c.note("check"); full_check(o, "check");
            }
        }
        for(auto& o : ts) full_check(o, "at the end");
        c.nontrivial(removed && (grew || reused));
        if(c.flip()) for(auto& o : ts) { for(auto& e : o.m) o.t->remove(K_(e.first)); o.m.clear(); full_check(o, "all removed"); }
    }
    CHECK(c, live == 0, live << " instances not destroyed (or destroyed twice)");
}
}

PBT_TEST(histories, 400000, 20000000)
{
    hash_mode = (int)c.weighted({ 40, 10, 10, 10, 10, 10, 10 });
    c.note("hash mode ", hash_mode);
    switch(c.draw(9)) {
        case 0: run<uint64_t, int, H<uint64_t>>(c); break;
        case 1: run<std::string, std::string, Srl::Lib::HashSrl<std::string>>(c); break;
        case 2: run<std::string, Cnt, H<std::string>>(c); break;
        case 3: run<Cnt, Cnt, H<Cnt>>(c); break;
        case 4: run<uint64_t, std::unique_ptr<int>, H<uint64_t>>(c); break;
        case 5: run<uint32_t, double, Srl::Lib::HashSrl<uint32_t>>(c); break;
        case 6: run<Cnt, int, H<Cnt>>(c); break;
        case 7: run<uint64_t, Cnt, Srl::Lib::HashSrl<uint64_t>>(c); break;
        default: run<uint16_t, uint8_t, H<uint16_t>>(c); break;
    }
}
// large tables: exact content over several rehashes (also with load factors below 1)
PBT_TEST(large, 1500, 60000)
{
    using T = Srl::Lib::HTable<uint64_t, uint64_t, H<uint64_t>>;
    hash_mode = c.pickl<int>({ 0, 3, 6 });
    T t(c.pickl<size_t>({ 64, 1, 1000 }), c.pickl<double>({ 1.0, 0.2, 4.0 }));
    size_t n = 500 + c.draw(6000); uint64_t step = 1 + c.draw(1000); c.nontrivial();
    if(hash_mode == 3) step = 1;
    std::vector<uint64_t*> at;
    for(size_t i = 0; i < n; i++) { auto r = t.insert(i * step, i); CHECK(c, !r.first, "new key " << i << " reported as existing"); at.push_back(r.second); }
    size_t del = c.draw(5) + 2;
    for(size_t i = 0; i < n; i += del) t.remove(i * step);
    for(size_t i = 0; i < n; i++) { auto* v = t.get(i * step); if(i % del == 0) CHECK(c, !v, "removed key found"); else CHECK(c, v == at[i] && *v == i, "key " << i << " lost, moved or changed"); }
    size_t m = 0; for(auto e : t) { CHECK(c, e.second * step == e.first, "iteration"); m++; }
    CHECK(c, m == t.num_entries() && m == n - (n + del - 1) / del, "entries visited: " << m);
}
