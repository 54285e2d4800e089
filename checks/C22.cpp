// C22: the Heap hands out disjoint, aligned, stable memory.
#include "pbt.hpp"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <map>
#include <memory>
#include <new>
#include <sanitizer/allocator_interface.h>
PBT_MAIN("C22", "random histories of get_mem (many types, alignments and sizes incl. 0 and sizes around the segment capacities), create, put_mem, clear and move over up to three heaps; live blocks are kept in an interval map "
         "with content patterns; non-trivial: memory was returned or cleared and allocated again afterwards, while other blocks were live")
using pbt::Case; using Srl::Lib::Heap;

// memory from new[] is aligned as the platform guarantees (16), and no more than that
void* operator new[](size_t n) { auto* p = (uint8_t*)malloc(n + 16); if(!p) throw std::bad_alloc(); return p + 16; }
void operator delete[](void* p) noexcept { if(p) free((uint8_t*)p - 16); }
void operator delete[](void* p, size_t) noexcept { if(p) free((uint8_t*)p - 16); }

namespace {
struct alignas(16) A16 { char c[16]; };
struct alignas(32) A32 { char c[32]; };
struct alignas(64) A64 { char c[64]; };
struct Odd { char c[3]; };
struct Big { uint64_t x[33]; };
struct Block { size_t size; uint64_t tag; int heap; size_t req; };
using Blocks = std::map<uint8_t*, Block>;
uint8_t pat(uint64_t tag, size_t i) { return (uint8_t)(tag * 0x9E3779B97F4A7C15ull >> 32) + (uint8_t)(i * 7); }
void fill(uint8_t* p, const Block& b) { for(size_t i = 0; i < b.size; i++) p[i] = pat(b.tag, i); }
bool intact(const uint8_t* p, const Block& b) { for(size_t i = 0; i < b.size; i++) if(p[i] != pat(b.tag, i)) return false; return true; }
size_t outstanding() { return __sanitizer_get_current_allocated_bytes(); }
}

PBT_TEST(histories, 200000, 10000000)
{
    Blocks live; uint64_t tag = 1; bool again = false, returned = false;
    {
        std::vector<std::unique_ptr<Heap>> hs(1 + c.draw(3));
        for(auto& h : hs) h.reset(new Heap());
        auto add = [&](int h, uint8_t* p, size_t size, size_t align, const char* what) {
            CHECK(c, size == 0 || p, what << ": no memory");
            CHECK(c, (uintptr_t)p % align == 0, what << ": block of " << size << " bytes isn't aligned to " << align);
            if(!size) return;
            auto i = live.upper_bound(p);
            if(i != live.end()) CHECK(c, p + size <= i->first, what << " of " << size << " bytes overlaps the following live block (" << (p + size - i->first) << " bytes)");
            if(i != live.begin()) { --i; CHECK(c, i->first + i->second.size <= p, what << " of " << size << " bytes overlaps a preceding live block of " << i->second.size << " bytes"); }
            Block b{ size, tag++, h, 0 }; fill(p, b); live[p] = b;
            if(returned && live.size() > 1) again = true;
        };
        auto drop = [&](int h) { for(auto i = live.begin(); i != live.end();) i = i->second.heap == h ? live.erase(i) : std::next(i); };
        size_t ops = 4 + c.size(150);
        for(size_t n = 0; n < ops; n++) {
            int hi = (int)c.draw(hs.size()); Heap& h = *hs[hi];
            switch(c.weighted({ 55, 10, 22, 3, 2, 4 })) {
                case 0: {
                    size_t kind = c.weighted({ 30, 20, 10, 5, 3, 1 });
                    size_t sz = kind == 0 ? c.draw(40) : kind == 1 ? c.draw(600) : kind == 2 ? c.pickl<size_t>({ 256, 512, 1024, 4096, 65536 }) + c.draw(40) - 20 : kind == 3 ? c.draw(9000) : kind == 4 ? c.draw(70000) : 262144 + c.draw(100) - 50;
                    auto req = [&](auto t, const char* nm) { using T = decltype(t); size_t k = sz / sizeof(T) + c.draw(2); c.note("heap ", hi, " get_mem<", nm, ">(", k, ")"); T* p = h.template get_mem<T>(k); add(hi, (uint8_t*)p, k * sizeof(T), alignof(T), "get_mem"); };
                    switch(c.draw(10)) {
                        case 0: req(uint8_t(), "uint8_t"); break; case 1: req(uint16_t(), "uint16_t"); break; case 2: req(uint32_t(), "uint32_t"); break; case 3: req(uint64_t(), "uint64_t"); break;
                        case 4: req(Odd(), "3 bytes"); break; case 5: req((void*)0, "pointer"); break; case 6: req(A16(), "16 byte aligned"); break; case 7: req(Big(), "264 bytes"); break;
                        case 8: req(A32(), "32 byte aligned"); break; default: req(A64(), "64 byte aligned");
                    }
                    break; }
                case 1: { c.note("heap ", hi, " create"); uint64_t v = c.draw64();
                    switch(c.draw(3)) { case 0: { auto* p = h.create<uint64_t>(v); CHECK(c, *p == v, "created object has another value"); add(hi, (uint8_t*)p, 8, 8, "create"); break; }
                        case 1: { auto* p = h.create<std::pair<uint32_t, double>>((uint32_t)v, 1.5); CHECK(c, p->first == (uint32_t)v && p->second == 1.5, "created object has another value"); add(hi, (uint8_t*)p, sizeof *p, alignof(double), "create"); break; }
                        default: { auto* p = h.create<char>('x'); CHECK(c, *p == 'x', "created object has another value"); add(hi, (uint8_t*)p, 1, 1, "create"); } }
                    break; }
                case 2: { // give back a block of this heap
                    std::vector<uint8_t*> mine; for(auto& b : live) if(b.second.heap == hi) mine.push_back(b.first);
                    if(mine.empty()) break;
                    auto i = live.find(c.pick(mine)); c.note("heap ", hi, " put_mem(", i->second.size, ")");
                    CHECK(c, intact(i->first, i->second), "content of a block changed before it was returned");
                    auto* p = i->first; size_t s = i->second.size; live.erase(i); h.put_mem(p, s); returned = true; break; }
                case 3: c.note("heap ", hi, " clear"); h.clear(); drop(hi); returned = true; break;
                case 4: { int d = (int)c.draw(hs.size()); if(d == hi) break; c.note("heap ", d, " = move(heap ", hi, ")"); drop(d); *hs[d] = std::move(h); for(auto& b : live) if(b.second.heap == hi) b.second.heap = d; break; }
                default: { c.note("move construct heap ", hi); std::unique_ptr<Heap> m(new Heap(std::move(h))); m.swap(hs[hi]);
                    if(c.flip()) { auto* p = m->get_mem<uint64_t>(5); Block b{ 40, tag++, -1, 0 }; fill((uint8_t*)p, b); add(-1, (uint8_t*)p, 40, 8, "get_mem of a moved-from heap"); drop(-1); } }
            }
            if(c.chance(1, 8)) for(auto& b : live) CHECK(c, intact(b.first, b.second), "content of a live block of " << b.second.size << " bytes changed");
        }
        for(auto& b : live) CHECK(c, intact(b.first, b.second), "content of a live block of " << b.second.size << " bytes changed");
        c.nontrivial(again);
    }
}
// destruction releases everything; clearing makes memory reusable: the footprint of a repeated workload doesn't grow
PBT_TEST(footprint, 20000, 1000000)
{
    std::vector<std::pair<size_t, size_t>> reqs; size_t n = 1 + c.size(60);
    for(size_t i = 0; i < n; i++) reqs.push_back({ c.draw(c.pickl<size_t>({ 50, 800, 5000, 40000 })), c.draw(3) });
    bool giveback = c.flip(), moved = c.flip(); size_t rounds = 4 + c.draw(30); size_t first = 0, after2 = 0, end = 0;
    c.nontrivial(n > 3); c.note(n, " requests, ", rounds, " rounds, give back: ", giveback);
    size_t before = outstanding();
    {
        Heap h;
        for(size_t r = 0; r < rounds; r++) {
            for(auto& q : reqs) { uint8_t* p = q.second == 0 ? h.get_mem<uint8_t>(q.first) : q.second == 1 ? (uint8_t*)h.get_mem<uint64_t>(q.first / 8) : (uint8_t*)h.get_mem<A16>(q.first / 16);
                size_t s = q.second == 0 ? q.first : q.second == 1 ? q.first / 8 * 8 : q.first / 16 * 16; memset(p, 0xAB, s); if(giveback && (q.first & 1)) h.put_mem(p, s); }
            h.clear();
            if(r == 0) first = outstanding() - before;
            if(r == 2) after2 = outstanding() - before;
        }
        end = outstanding() - before;
        if(moved) { Heap m(std::move(h)); }
    }
    size_t left = outstanding() - before;
    // segments may grow to their maximal size while the heap adapts; but it must not keep allocating for a workload which was served from cleared memory before
    CHECK(c, end <= 3 * after2 + (2 << 20), "cleared memory isn't reused: " << first << " bytes after the first round, " << after2 << " after three, " << end << " after " << rounds);
    CHECK(c, left == 0, "destruction left " << left << " bytes allocated");
}
