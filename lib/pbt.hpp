// Small property-based-testing engine used by all checks.
//  * every random decision is a recorded integer choice ("choice sequence"), so any case can be
//    replayed and shrunk generically (delete / zero / reduce choices, smaller = simpler);
//  * cases are pure functions of (VERIF_SEED, test name, case index); fixed case counts per tier;
//  * cases run in forked workers; the choices are recorded in shared memory, so crashes
//    (ASan/UBSan/signals) and hangs (CPU time) are attributed to a case, replayed and shrunk too.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};   // case does not apply (counted separately)

struct ShmChoices { uint64_t n; uint64_t overflow; uint64_t data[1]; };

inline uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
};
uint64_t fnv(const void* p, size_t n, uint64_t h = 0xCBF29CE484222325ull);

class Case {
public:
    // --- drawing ---
    uint64_t draw(uint64_t n)                  // uniform in [0,n)
    {
        if(n < 2) return 0;
        uint64_t v;
        if(replay) v = pos < replay->size() ? (*replay)[pos] % n : 0;
        else       v = n == ~0ull ? rng.next() : (uint64_t)(((unsigned __int128)rng.next() * n) >> 64);
        pos++;
        record(v);
        return v;
    }
    uint64_t draw64()
    {
        uint64_t v = replay ? (pos < replay->size() ? (*replay)[pos] : 0) : rng.next();
        pos++; record(v); return v;
    }
    // weighted: draws so that the *first* alternative (0) is the shrink target
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t sum = 0; for(auto x : w) sum += x;
        uint64_t v = draw(sum); size_t i = 0;
        for(auto x : w) { if(v < x) return i; v -= x; i++; }
        return 0;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    bool flip() { return draw(2) == 1; }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 -> false
    template<class C> auto& pick(C& c) { return c[draw(c.size())]; }
    template<class T> T pickl(std::initializer_list<T> l) { return l.begin()[draw(l.size())]; }
    // mostly small sizes, sometimes up to max
    size_t size(size_t max)
    {
        size_t k = weighted({ 50, 30, 15, 5 });
        size_t lim = k == 0 ? 4 : k == 1 ? 12 : k == 2 ? 40 : max;
        if(lim > max) lim = max;
        return draw(lim + 1);
    }
    uint64_t enumerate(uint64_t n)             // walks 0..n-1 with the case index
    {
        uint64_t v;
        if(replay) v = pos < replay->size() ? (*replay)[pos] % n : 0;
        else       v = index % n;
        pos++; record(v);
        return v;
    }
    // --- reporting ---
    [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
    void check(bool ok, const char* m) { if(!ok) throw Failure(m); }
    template<class F> void check(bool ok, const char* m, F&& more)
    {
        if(!ok) { std::ostringstream o; o << m << "\n"; more(o); throw Failure(o.str()); }
    }
    void nontrivial(bool b = true) { if(b) nontriv = true; }
    void label(const std::string& l, uint64_t n = 1) { if(labels) (*labels)[l] += n; }
    void excluded(const std::string& l) { label("excluded: " + l); }
    bool verbose = false;                       // describe the case through note()
    template<class... A> void note(const A&... a)
    {
        if(verbose && desc.size() < 6000) { std::ostringstream o; (o << ... << a); desc += o.str(); desc += "\n"; }
    }
    uint64_t    index = 0;
    bool        thorough = false;
    bool        nontriv = false;
    uint64_t    hash = 0xCBF29CE484222325ull;
    std::string desc;

    Rng rng{0};
    const std::vector<uint64_t>* replay = nullptr;
    ShmChoices* rec = nullptr; uint64_t rec_cap = 0;
    std::map<std::string, uint64_t>* labels = nullptr;
    size_t pos = 0;
private:
    void record(uint64_t v)
    {
        hash = (hash ^ v) * 0x100000001B3ull; hash ^= hash >> 29;
        if(rec) { if(rec->n < rec_cap) rec->data[rec->n++] = v; else rec->overflow = 1; }
    }
};

struct Test {
    const char* name;
    uint64_t    quick, thorough;
    void      (*fn)(Case&);
};
struct Probe {            // a listed genuine defect: returns "" when behaviour is right, else what fails
    const char* id;
    std::string (*fn)();
};
std::vector<Test>&  tests();
std::vector<Probe>& probes();
struct RegTest  { RegTest(Test t)   { tests().push_back(t); } };
struct RegProbe { RegProbe(Probe p) { probes().push_back(p); } };

#define PBT_TEST(NAME, QUICK, THOROUGH) \
    static void pbt_##NAME(pbt::Case&); \
    static pbt::RegTest pbt_reg_##NAME({ #NAME, QUICK, THOROUGH, &pbt_##NAME }); \
    static void pbt_##NAME([[maybe_unused]] pbt::Case& c)
#define PBT_PROBE(NAME) \
    static std::string pbt_probe_##NAME(); \
    static pbt::RegProbe pbt_regp_##NAME({ #NAME, &pbt_probe_##NAME }); \
    static std::string pbt_probe_##NAME()

// defined by the check
extern const char* property_id;
extern const char* nontrivial_rule;
// per-process one-time initialisation hook (may be empty)
int main_impl(int argc, char** argv);

}

#define PBT_MAIN(ID, RULE) \
    const char* pbt::property_id = ID; const char* pbt::nontrivial_rule = RULE; \
    int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }

#define CHECK(C, COND, ...) \
    do { if(!(COND)) { std::ostringstream pbt_o; pbt_o << "[" #COND "] "; pbt_o << __VA_ARGS__; throw pbt::Failure(pbt_o.str()); } } while(0)
