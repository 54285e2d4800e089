// C25: independent Trees can be used from different threads.
#include "dyn.hpp"
#include "mutate.hpp"
#include "poly.hpp"
#include <atomic>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <iconv.h>
using namespace doc; using namespace br;
using dyn::Dyn;
PBT_MAIN("C25", "2-4 threads, each with its own Tree, parsers, objects and buffers, running a random script (store, restore, load, convert, pack, unpack, document access, editing, failing input, polymorphic and shared objects, "
         "base64/hex/charset/number tools, HTable, Heap) at once in a fresh process under ThreadSanitizer, afterwards each script again alone in the same process: results have to be equal; "
         "non-trivial: at least two threads run operations of the same kind")

// iconv's converters are loaded and unloaded by the C library under locks which aren't instrumented; they are kept loaded (the C library's own affair)
extern "C" const char* __tsan_default_suppressions() { return "called_from_lib:ld-linux-x86-64.so.2\nrace:_dl_close_worker\nrace:_dl_open\n"; }
static const struct Keep { Keep() { for(auto a : { "UTF-8", "UTF-16LE", "UTF-32LE" }) for(auto b : { "UTF-8", "UTF-16LE", "UTF-32LE" }) if(a != b) iconv_open(a, b); } } keep;

// all results of a thread, one text per operation
typedef std::vector<std::string> Log;
struct Ctx { Srl::Tree tree; Srl::PJson jc{ true }, js{ false }; Srl::PMsgPack mp; Srl::PSrl sr; std::vector<Bytes> made[4]; Srl::Lib::Heap heap; Srl::Lib::HTable<Srl::String, int> table;
    template<class F> auto with(Fmt f, F&& fn) { switch(f) { case JC: return fn(jc); case JS: return fn(js); case MP: return fn(mp); default: return fn(sr); } } };
typedef std::function<std::string(Ctx&)> Op;
struct Script { std::vector<std::pair<int, Op>> ops; std::vector<int> order; unsigned mask; std::vector<std::vector<dyn::Spec>> schema; std::shared_ptr<poly::Holder> h; std::shared_ptr<Dyn> d; Doc doc; };

static Log run(const Script& s, unsigned rounds)
{
    auto& st = poly::state(); st.order = s.order; st.mask = s.mask; st.fault = -1; st.steps = 0;
    for(int l = 0; l < dyn::LEVELS; l++) dyn::schema(l) = s.schema[(size_t)l];
    Log log; Ctx x;
    for(unsigned r = 0; r < rounds; r++) for(auto& o : s.ops) {
        std::string out; auto e = thrown([&] { out = o.second(x); }); poly::state().fault = -1;
        log.push_back(e.empty() ? out : "exception: " + e);
    }
    return log;
}
static std::string holder_text(const poly::Holder& want, const poly::Holder& got) { poly::Iso i; return want.equal(got, i) ? "equal" : "object differs: " + i.why; }
static std::string dyn_text(const Dyn& want, const Dyn& got) { dyn::Cmp m; return want.equal(got, m, "obj") ? "equal" : "object differs: " + m.why; }
static Bytes show_all(const Doc& d) { return show(d, 100000); }
static Bytes broken(const Bytes& b, size_t how, uint64_t frac, uint8_t byte)
{
    if(!how || b.empty()) return b;
    size_t at = (size_t)((unsigned __int128)frac * b.size() >> 64); Bytes o = b;
    if(how == 1) o.resize(at); else o[at] = (char)byte;
    return o;
}
static Op draw_op(Case& c, Gen& g, const Script& s, int kind)
{
    Fmt f = pick_fmt(c); auto h = s.h; auto d = s.d; const Doc& doc = s.doc; auto via = pick_via(c); auto chunk = pick_chunk(c);
    size_t how = c.chance(1, 4) ? 1 + c.draw(2) : 0; uint64_t frac = c.draw64(); uint8_t byte = (uint8_t)c.draw(256); long fault = c.chance(1, 8) ? (long)c.draw(30) : -1;
    auto arm = [fault] { poly::state().steps = 0; poly::state().fault = fault; };
    switch(kind) {
        case 0: return [=](Ctx& x) { arm(); return x.with(f, [&](auto& p) { return str(x.tree.store(*h, p)); }); };
        case 1: return [=](Ctx& x) { return x.with(f, [&](auto& p) { if(byte & 1) { std::ostringstream o; x.tree.store(*d, o, p); return o.str(); } return str(x.tree.store(*d, p)); }); };
        case 2: return [=](Ctx& x) { Bytes b = broken(x.with(f, [&](auto& p) { return str(Srl::Tree().store(*h, p)); }), how, frac, byte); poly::Holder r; arm(); source(via, b, chunk, [&](auto& i) { x.with(f, [&](auto& p) { x.tree.restore(r, i, p); }); }); return holder_text(*h, r); };
        case 3: return [=](Ctx& x) { Bytes b = broken(x.with(f, [&](auto& p) { return str(Srl::Tree().store(*d, p)); }), how, frac, byte); Dyn r; source(via, b, chunk, [&](auto& i) { x.with(f, [&](auto& p) { x.tree.restore(r, i, p); }); }); return dyn_text(*d, r); };
        case 4: { Bytes b = wild(c, f, doc); if(how) b = mutate(c, b, f, 2); Fmt to = pick_fmt(c);
            return [=](Ctx& x) { source(via, b, chunk, [&](auto& i) { x.with(f, [&](auto& p) { x.tree.load_source(i, p); }); }); return show_all(dump(x.tree.root())) + x.with(to, [&](auto& p) { return str(x.tree.to_source(p)); }); }; }
        case 5: return [=](Ctx& x) { std::vector<uint8_t> v; std::string last; int n = 0; poly::Holder r; Dyn e; x.with(f, [&](auto& p) { x.tree.pack(v, p, "n", 5, "h", *h, "d", *d, "last", "text"); });
            Bytes b = broken(str(v), how, frac, byte); source(via, b, chunk, [&](auto& i) { x.with(f, [&](auto& p) { x.tree.unpack(i, p, "d", e, "last", last, "h", r, "n", n); }); }); return b + last + std::to_string(n) + holder_text(*h, r) + dyn_text(*d, e); };
        case 6: return [=](Ctx& x) { Srl::Tree t; make(t, doc); std::string o; t.root().foreach_value([&](Srl::Value& v) { o += std::string(Srl::TpTools::get_name(v.type())) + ":"; try { o += v.unwrap<std::string>(); } catch(std::exception& e) { o += e.what(); } try { o += std::to_string(v.unwrap<int>()); } catch(std::exception& e) { o += e.what(); } }, true);
            o += t.root().get("no such field").is_node() ? "?" : "."; return o; };
        case 7: { auto nm = g.name(); auto sub = g.tree(3, 6); return [=](Ctx& x) { Srl::Tree t; make(t, doc); Srl::String n((const uint8_t*)nm.data(), nm.size(), Srl::Encoding::UTF8); t.root().insert(n, 42, n, u"wide"); Srl::Tree o; make(o, sub); t.root().insert("sub", o.root()); t.root().insert("h", *h);
            if(byte & 1) t.root().remove_value("x"); auto e = show_all(dump(t.root())); try { t.root().remove_node("none"); } catch(std::exception& q) { e += q.what(); } auto r = t.try_get("sub"); e += r ? (r->is_node() ? "node" : "value") : "none"; poly::Holder back; t.root().get("h").copy_to(back); return e + holder_text(*h, back); }; }
        case 8: { auto t = g.text(200); auto b = g.blob(200); auto num = g.dbl(); auto in = (int64_t)g.integer_for(I64); return [=](Ctx&) { std::string o; auto v = Srl::Tools::bytes_to_base64((const uint8_t*)b.data(), b.size()); auto e = broken(str(v), how, frac, byte); o += e;
            try { o += str(Srl::Tools::base64_to_bytes(e.data(), e.size())); } catch(std::exception& q) { o += q.what(); } auto hx = broken(str(Srl::Tools::bytes_to_hex((const uint8_t*)b.data(), b.size())), how, frac, byte); try { o += str(Srl::Tools::hex_to_bytes((const uint8_t*)hx.data(), hx.size())); } catch(std::exception& q) { o += q.what(); }
            Srl::String s((const uint8_t*)t.data(), t.size(), Srl::Encoding::UTF8); for(auto enc : { Srl::Encoding::UTF16, Srl::Encoding::UTF32 }) { auto w = Srl::Tools::conv_charset(enc, s, false); o += str(w); Srl::String ws(w.data(), w.size(), enc); o += str(Srl::Tools::conv_charset(Srl::Encoding::UTF8, ws, false)); }
            auto bad = broken(t, 2, frac, byte); try { o += str(Srl::Tools::conv_charset(Srl::Encoding::UTF16, Srl::String((const uint8_t*)bad.data(), bad.size(), Srl::Encoding::UTF8))); } catch(std::exception& q) { o += q.what(); }
            o += Srl::Tools::type_to_str(Srl::Value(num)) + " " + Srl::Tools::type_to_str(Srl::Value(in)) + " "; auto txt = Srl::Tools::type_to_str(Srl::Value(num)); auto r = Srl::Tools::str_to_type(Srl::String(txt)); o += r.first ? Srl::Tools::type_to_str(r.second) : "none"; return o; }; }
        case 9: { std::vector<std::pair<Bytes, int>> kv; size_t n = c.draw(30); for(size_t i = 0; i < n; i++) kv.emplace_back(g.name(), (int)i); return [=](Ctx& x) { std::string o; for(auto& k : kv) { Srl::String s((const uint8_t*)k.first.data(), k.first.size(), Srl::Encoding::UTF8); auto r = x.table.insert(s, k.second); o += r.first ? "!" : "+"; } for(auto& k : kv) { auto* p = x.table.get(Srl::String((const uint8_t*)k.first.data(), k.first.size(), Srl::Encoding::UTF8)); o += p ? std::to_string(*p) : "-"; } x.table.clear(); return o; }; }
        default: { std::vector<size_t> sz(1 + c.draw(20)); for(auto& z : sz) z = c.size(3000); return [=](Ctx& x) { std::string o; std::vector<uint8_t*> v; for(auto z : sz) { auto* p = x.heap.get_mem<uint8_t>(z + 1); memset(p, (int)z, z + 1); v.push_back(p); } for(size_t i = 0; i < sz.size(); i++) for(size_t k = 0; k <= sz[i]; k++) if(v[i][k] != (uint8_t)sz[i]) o += "?"; x.heap.clear(); return o; }; }
    }
}
// runs fn in a forked process: "" or what's wrong
static std::string isolated(const std::function<std::string()>& fn)
{
    int p[2]; if(pipe(p)) throw pbt::Discard{};
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid == 0) {
        dup2(p[1], 2); close(p[0]); alarm(60);
        std::string r; try { r = fn(); } catch(std::exception& e) { r = std::string("exception ") + e.what(); }
        if(!r.empty()) { r = "RESULT " + r; if(write(2, r.data(), r.size())) { } }
        _exit(r.empty() ? 0 : 98);
    }
    close(p[1]); std::string out; char buf[4096]; ssize_t n;
    while((n = read(p[0], buf, sizeof buf)) > 0) if(out.size() < 20000) out.append(buf, (size_t)n);
    close(p[0]); int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if(WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "threads do not end (deadlock)" : "killed by signal " + std::to_string(WTERMSIG(st)) + "\n" + out.substr(0, 3000);
    return out.substr(0, 4000);
}
PBT_TEST(threads, 3500, 100000)
{
    size_t n = 2 + c.draw(3); unsigned rounds = 1 + (unsigned)c.draw(4); Gen g(c); g.big = false; dyn::Opt o; dyn::draw_schema(g, o);
    std::vector<Script> s(n); std::vector<int> seen(11, 0); bool same = false; int common = c.flip() ? (int)c.draw(11) : -1;
    poly::reset(c);
    auto order = poly::state().order; auto mask = poly::state().mask;
    for(auto& x : s) {
        x.h = std::make_shared<poly::Holder>(); poly::state().mask = mask; x.h->gen(g); poly::forget(); x.d = std::make_shared<Dyn>(); x.d->gen(g); x.doc = g.any(); x.order = order; x.mask = poly::state().mask; for(int l = 0; l < dyn::LEVELS; l++) x.schema.push_back(dyn::schema(l));
        size_t k = 1 + c.draw(6); std::vector<int> mine(11, 0);
        for(size_t i = 0; i < k; i++) { int kind = common >= 0 && i == 0 ? common : (int)c.draw(11); x.ops.emplace_back(kind, draw_op(c, g, x, kind)); if(!mine[(size_t)kind]++) same |= seen[(size_t)kind]++ > 0; c.label("operation " + std::to_string(kind)); }
    }
    c.nontrivial(same); c.note(n, " threads, ", rounds, " rounds");
    auto why = isolated([&]() -> std::string {
        std::vector<Log> logs(n); std::atomic<unsigned> ready{ 0 }; std::vector<std::thread> t;
        for(size_t i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while(ready < n) std::this_thread::yield(); logs[i] = run(s[i], rounds); });
        for(auto& x : t) x.join();
        for(size_t i = 0; i < n; i++) { Log alone = run(s[i], rounds); for(size_t k = 0; k < alone.size(); k++) if(alone[k] != logs[i][k]) return "thread " + std::to_string(i) + ", operation " + std::to_string(k) + " of kind " + std::to_string(s[i].ops[k % s[i].ops.size()].first) + " gives " + quote(logs[i][k], 500) + "\nalone it gives " + quote(alone[k], 500); }
        return "";
    });
    CHECK(c, why.empty(), why);
}
