#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

std::vector<Test>&  tests()  { static std::vector<Test> t;  return t; }
std::vector<Probe>& probes() { static std::vector<Probe> p; return p; }

uint64_t fnv(const void* p, size_t n, uint64_t h)
{
    auto* b = (const uint8_t*)p;
    for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
    return h;
}

namespace {

const uint64_t Rec_Cap     = 1 << 20;
const int      Exit_Ok     = 0, Exit_Fail = 41, Exit_Discard = 42;
const double   Hang_Cpu_S  = 40;        // a normal case takes milliseconds

struct Shared {
    volatile uint64_t test, index, done, evals, state;  // state 1 = in a case
    volatile uint64_t fail;                             // worker ended by Failure
    char              msg[8192];
    char              desc[8192];
    ShmChoices        rec;        // must stay last; followed by Rec_Cap entries
};
size_t shared_size() { return sizeof(Shared) + Rec_Cap * 8; }

Shared* new_shared()
{
    void* p = mmap(nullptr, shared_size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

struct Opt {
    uint64_t seed = 1; bool thorough = false;
    std::string work = ".", evidence, known, replay_dir = ".", replay;
    int workers = 8; double scale = 1; std::string only; bool list = false;
} opt;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t case_seed(const Test& t, uint64_t idx)
{
    uint64_t x = fnv(t.name, strlen(t.name)) ^ (opt.seed * 0x9E3779B97F4A7C15ull);
    splitmix(x); x ^= idx * 0xD1342543DE82EF95ull;
    return splitmix(x);
}
uint64_t count(const Test& t)
{
    double n = (double)(opt.thorough ? t.thorough : t.quick) * opt.scale;
    return n < 1 ? 1 : (uint64_t)n;
}

void set_text(char* dst, size_t cap, const std::string& s)
{
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n); dst[n] = 0;
}

// runs one case in this process; returns Exit_*
int run_case(const Test& t, Case& c, std::string& msg)
{
    try {
        t.fn(c);
    } catch(const Failure& f) {
        msg = f.msg; return Exit_Fail;
    } catch(const Discard&) {
        return Exit_Discard;
    } catch(const std::exception& e) {
        msg = std::string("unexpected exception out of the operation under test: ") + e.what(); return Exit_Fail;
    } catch(...) {
        msg = "unexpected non-standard exception out of the operation under test"; return Exit_Fail;
    }
    return Exit_Ok;
}

std::string log_path(const std::string& n) { return opt.work + "/" + n + ".log"; }
void redirect(const std::string& n)
{
    int fd = open(log_path(n).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
std::string read_file(const std::string& p, size_t max = 1 << 20)
{
    std::ifstream f(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {});
    if(s.size() > max) s.resize(max);
    return s;
}

struct Outcome { bool failed = false; std::string kind, msg, desc; };

std::string crash_summary(const std::string& log, int status)
{
    std::istringstream in(log); std::string l, out; int frames = 0;
    while(std::getline(in, l)) {
        if(l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos ||
           l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("SUMMARY") != std::string::npos ||
           (l.find("    #") != std::string::npos && l.find("/repo/") != std::string::npos && frames++ < 6))
            out += l + "\n";
    }
    if(out.empty()) {
        std::ostringstream o;
        if(WIFSIGNALED(status)) o << "process killed by signal " << WTERMSIG(status);
        else o << "process ended with exit code " << (WIFEXITED(status) ? WEXITSTATUS(status) : -1);
        out = o.str();
    }
    return out;
}

void limit_cpu(double s)
{
    rlimit r { (rlim_t)s, (rlim_t)s + 5 }; setrlimit(RLIMIT_CPU, &r);
    rlimit core { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
}

// run one case (by choices or by index, or a whole range of a worker) in a child
Outcome run_child(const Test& t, const std::vector<uint64_t>* choices, uint64_t lo, uint64_t hi, uint64_t step,
                  Shared* sh, double cpu = Hang_Cpu_S)
{
    sh->rec.n = 0; sh->rec.overflow = 0; sh->msg[0] = sh->desc[0] = 0; sh->fail = 0;
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        redirect("child");
        limit_cpu(cpu);
        std::map<std::string, uint64_t> labels;
        if(choices) {
            Case c; c.replay = choices; c.rec = &sh->rec; c.rec_cap = Rec_Cap; c.verbose = true; c.thorough = opt.thorough;
            c.labels = &labels;
            std::string msg; int rc = run_case(t, c, msg);
            set_text(sh->msg, sizeof sh->msg, msg); set_text(sh->desc, sizeof sh->desc, c.desc);
            _exit(rc);
        }
        for(uint64_t i = lo; i <= hi; i += step) {
            sh->rec.n = 0; sh->rec.overflow = 0; sh->index = i;
            Case c; c.rng = Rng(case_seed(t, i)); c.index = i; c.rec = &sh->rec; c.rec_cap = Rec_Cap; c.thorough = opt.thorough;
            c.verbose = i + step > hi; c.labels = &labels;
            std::string msg; int rc = run_case(t, c, msg);
            if(rc == Exit_Fail) {
                set_text(sh->msg, sizeof sh->msg, msg); set_text(sh->desc, sizeof sh->desc, c.desc);
                _exit(rc);
            }
        }
        _exit(Exit_Ok);
    }
    int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if(WIFEXITED(st) && (WEXITSTATUS(st) == Exit_Ok || WEXITSTATUS(st) == Exit_Discard)) return o;
    o.failed = true; o.desc = sh->desc;
    if(WIFEXITED(st) && WEXITSTATUS(st) == Exit_Fail) { o.kind = "failure"; o.msg = sh->msg; }
    else if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) { o.kind = "hang"; o.msg = "no result within the CPU-time limit"; }
    else if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL)) { o.kind = "killed"; o.msg = "killed (memory or CPU limit)"; }
    else { o.kind = "crash"; o.msg = crash_summary(read_file(log_path("child")), st); }
    return o;
}

std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> best, const std::string& kind, Shared* sh)
{
    double t0 = now(); int budget = 1500;
    auto bad = [&](const std::vector<uint64_t>& v) {
        if(budget-- <= 0 || now() - t0 > 45) return false;
        auto o = run_child(t, &v, 0, 0, 1, sh);
        return o.failed && o.kind == kind;
    };
    bool progress = true;
    while(progress && budget > 0 && now() - t0 < 45) {
        progress = false;
        for(size_t len : { 512, 128, 32, 8, 4, 3, 2, 1 })
            for(size_t i = 0; i + len <= best.size();) {
                auto v = best; v.erase(v.begin() + i, v.begin() + i + len);
                if(bad(v)) { best = v; progress = true; } else i += len > 8 ? len / 2 : 1;
                if(budget <= 0) break;
            }
        for(size_t len : { 16, 4, 1 })
            for(size_t i = 0; i + len <= best.size(); i++) {
                bool nz = false; for(size_t k = 0; k < len; k++) nz |= best[i + k] != 0;
                if(!nz) continue;
                auto v = best; std::fill(v.begin() + i, v.begin() + i + len, 0);
                if(bad(v)) { best = v; progress = true; }
            }
        for(size_t i = 0; i < best.size(); i++) {
            uint64_t lo = 0, hi = best[i];
            while(lo + 1 < hi) {
                uint64_t mid = lo + (hi - lo) / 2; auto v = best; v[i] = mid;
                if(bad(v)) { best = v; hi = mid; progress = true; } else lo = mid;
                if(budget <= 0) break;
            }
        }
    }
    while(best.size() && best.back() == 0) {
        auto v = best; v.pop_back();
        auto o = run_child(t, &v, 0, 0, 1, sh);
        if(!o.failed || o.kind != kind) break;
        best = v;
    }
    return best;
}

std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if(ch < 0x20 || ch >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

struct Stats {
    uint64_t evals = 0, discards = 0;
    std::map<std::string, uint64_t> labels, per_test, per_test_nt;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
};

int worker(int w, Shared* sh, volatile uint64_t* stop)
{
    redirect("worker" + std::to_string(w));
    rlimit core { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
    Stats st;
    auto& ts = tests();
    for(size_t ti = 0; ti < ts.size(); ti++) {
        auto& t = ts[ti];
        if(opt.only.size() && opt.only != t.name) continue;
        uint64_t n = count(t); int nsamples = 0;
        for(uint64_t i = w; i < n; i += opt.workers) {
            if(*stop) break;
            sh->test = ti; sh->index = i; sh->rec.n = 0; sh->rec.overflow = 0;
            sh->state = 1;
            Case c; c.rng = Rng(case_seed(t, i)); c.index = i; c.rec = &sh->rec; c.rec_cap = Rec_Cap;
            c.thorough = opt.thorough; c.labels = &st.labels;
            c.verbose = w < 2 && nsamples < 1 && i >= (uint64_t)opt.workers * 3;
            std::string msg; int rc = run_case(t, c, msg);
            sh->state = 0; sh->done = sh->done + 1;
            if(rc == Exit_Discard) { st.discards++; continue; }
            st.evals++; st.per_test[t.name]++;
            if(rc == Exit_Fail) {
                set_text(sh->msg, sizeof sh->msg, msg); sh->fail = 1; *stop = 1;
                return Exit_Fail;
            }
            if(c.nontriv) {
                if(st.distinct.insert(c.hash ^ fnv(t.name, strlen(t.name))).second) st.per_test_nt[t.name]++;
                if(c.verbose && c.desc.size()) {
                    nsamples++;
                    auto d = c.desc; if(d.size() > 700) d = d.substr(0, 700) + " ...";
                    st.samples.push_back(std::string(t.name) + "#" + std::to_string(i) + ": " + d);
                }
            }
        }
    }
    std::ofstream f(opt.work + "/stats" + std::to_string(w), std::ios::binary);
    f << st.evals << " " << st.discards << "\n" << st.labels.size() << "\n";
    for(auto& l : st.labels) f << l.second << " " << l.first << "\n";
    f << st.per_test.size() << "\n"; for(auto& l : st.per_test) f << l.second << " " << st.per_test_nt[l.first] << " " << l.first << "\n";
    f << st.samples.size() << "\n"; for(auto& s : st.samples) { f << s.size() << "\n"; f.write(s.data(), s.size()); f << "\n"; }
    f << st.distinct.size() << "\n"; for(auto h : st.distinct) f.write((const char*)&h, 8);
    f.close();
    return Exit_Ok;
}

void merge(Stats& st, int w)
{
    std::ifstream f(opt.work + "/stats" + std::to_string(w), std::ios::binary);
    uint64_t a, b; size_t n; std::string l;
    if(!(f >> a >> b)) return;
    st.evals += a; st.discards += b;
    f >> n; for(size_t i = 0; i < n; i++) { f >> a; f.get(); std::getline(f, l); st.labels[l] += a; }
    f >> n; for(size_t i = 0; i < n; i++) { f >> a >> b; f.get(); std::getline(f, l); st.per_test[l] += a; st.per_test_nt[l] += b; }
    f >> n; for(size_t i = 0; i < n; i++) { size_t z; f >> z; f.get(); std::string s(z, 0); f.read(&s[0], z); f.get(); st.samples.push_back(s); }
    f >> n; f.get(); for(size_t i = 0; i < n; i++) { uint64_t h; f.read((char*)&h, 8); st.distinct.insert(h); }
}

double proc_cpu(pid_t pid)
{
    auto s = read_file("/proc/" + std::to_string(pid) + "/stat", 4096);
    auto p = s.rfind(')'); if(p == std::string::npos) return 0;
    std::istringstream in(s.substr(p + 2)); std::string tok; double u = 0;
    for(int i = 3; i <= 15 && in >> tok; i++) if(i == 14 || i == 15) u += atof(tok.c_str());
    return u / sysconf(_SC_CLK_TCK);
}

void write_evidence(const Stats& st, double wall, int violations, uint64_t findings)
{
    if(opt.evidence.empty()) return;
    std::ofstream f(opt.evidence);
    f << "{\"property\":" << json_str(property_id) << ",\"tier\":\"" << (opt.thorough ? "thorough" : "quick")
      << "\",\"seed\":" << opt.seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << st.evals
      << ",\"distinct_nontrivial\":" << st.distinct.size() << ",\"rule\":" << json_str(nontrivial_rule)
      << ",\"discarded\":" << st.discards << ",\"known_findings_checked\":" << findings
      << ",\"cases_per_test\":{";
    bool first = true;
    for(auto& p : st.per_test) { f << (first ? "" : ",") << json_str(p.first) << ":{\"cases\":" << p.second << ",\"distinct_nontrivial\":"
        << (st.per_test_nt.count(p.first) ? st.per_test_nt.at(p.first) : 0) << "}"; first = false; }
    f << "},\"labels\":{"; first = true;
    for(auto& p : st.labels) { f << (first ? "" : ",") << json_str(p.first) << ":" << p.second; first = false; }
    f << "},\"samples\":["; first = true;
    for(auto& s : st.samples) { f << (first ? "" : ",") << json_str(s); first = false; }
    f << "]},\"assumptions\":[\"generated-input search: covers what was generated, establishes no absence\"],\"wall_s\":" << wall
      << ",\"violations\":" << violations << "}\n";
}

std::string write_replay(const Test& t, const std::vector<uint64_t>* ch, uint64_t lo, uint64_t hi, uint64_t step, const Outcome& o)
{
    mkdir(opt.replay_dir.c_str(), 0755);
    auto path = opt.replay_dir + "/" + property_id + "-" + t.name + ".replay";
    std::ofstream f(path);
    f << "property " << property_id << "\ntest " << t.name << "\nseed " << opt.seed << "\ntier " << (opt.thorough ? "thorough" : "quick") << "\n";
    if(ch) { f << "choices"; for(auto v : *ch) f << " " << v; f << "\n"; }
    else f << "range " << lo << " " << hi << " " << step << "\n";
    f << "# kind: " << o.kind << "\n";
    std::istringstream a(o.msg); std::string l; while(std::getline(a, l)) f << "# " << l << "\n";
    f << "# --- case ---\n";
    std::istringstream b(o.desc); while(std::getline(b, l)) f << "# " << l << "\n";
    return path;
}

std::string first_lines(const std::string& s, int n)
{
    std::istringstream in(s); std::string l, o; while(n-- > 0 && std::getline(in, l)) o += "  " + l.substr(0, 400) + "\n"; return o;
}

int replay_main()
{
    std::istringstream in(read_file(opt.replay, 64 << 20)); std::string line, tname; std::vector<uint64_t> ch; bool has = false;
    uint64_t lo = 0, hi = 0, step = 1;
    while(std::getline(in, line)) {
        std::istringstream l(line); std::string k; l >> k;
        if(k == "test") l >> tname;
        else if(k == "seed") l >> opt.seed;
        else if(k == "tier") { std::string x; l >> x; opt.thorough = x == "thorough"; }
        else if(k == "choices") { has = true; uint64_t v; while(l >> v) ch.push_back(v); }
        else if(k == "range") l >> lo >> hi >> step;
    }
    auto* sh = new_shared();
    for(auto& t : tests()) if(tname == t.name) {
        auto o = run_child(t, has ? &ch : nullptr, lo, hi, step, sh);
        if(o.failed) {
            printf("%s: %s\n%s\n--- case ---\n%s\n", o.kind.c_str(), t.name, o.msg.c_str(), o.desc.c_str());
            printf("VIOLATION property=%s replay=%s\n", property_id, opt.replay.c_str());
            return 1;
        }
        printf("replay passes\n%s\n", sh->desc);
        return 0;
    }
    fprintf(stderr, "no such test %s\n", tname.c_str());
    return 2;
}
} // namespace

int main_impl(int argc, char** argv)
{
    double t0 = now();
    if(getenv("VERIF_SEED")) opt.seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
    if(getenv("VERIF_TIER")) opt.thorough = !strcmp(getenv("VERIF_TIER"), "thorough");
    if(getenv("PBT_SCALE"))  opt.scale = atof(getenv("PBT_SCALE"));
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--work") opt.work = val();
        else if(a == "--evidence") opt.evidence = val();
        else if(a == "--known") opt.known = val();
        else if(a == "--replay-dir") opt.replay_dir = val();
        else if(a == "--replay") opt.replay = val();
        else if(a == "--workers") opt.workers = atoi(val().c_str());
        else if(a == "--only") opt.only = val();
        else if(a == "--tier") opt.thorough = val() == "thorough";
        else if(a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
    }
    if(opt.replay.size()) return replay_main();

    // known findings
    std::map<std::string, std::string> known;   // probe id -> text
    {
        std::ifstream f(opt.known); std::string l;
        auto pre = std::string("finding: property=") + property_id + " id=";
        while(std::getline(f, l)) if(l.rfind(pre, 0) == 0) {
            auto r = l.substr(pre.size()); auto sp = r.find(' ');
            known[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1);
        }
    }
    int violations = 0;
    auto* psh = new_shared();
    for(auto& p : probes()) {
        psh->msg[0] = 0; fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            redirect("probe"); limit_cpu(Hang_Cpu_S);
            std::string m;
            try { m = p.fn(); } catch(const std::exception& e) { m = e.what(); } catch(...) { m = "exception"; }
            set_text(psh->msg, sizeof psh->msg, m); _exit(m.empty() ? 0 : Exit_Fail);
        }
        int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        std::string m = psh->msg; if(m.empty()) m = crash_summary(read_file(log_path("probe")), st);
        if(known.count(p.id)) printf("KNOWN-FINDING: property=%s %s: %s\n", property_id, p.id, known[p.id].c_str());
        else {
            mkdir(opt.replay_dir.c_str(), 0755);
            auto path = opt.replay_dir + "/" + property_id + "-probe-" + p.id + ".replay";
            std::ofstream(path) << "property " << property_id << "\nprobe " << p.id << "\n# " << m << "\n";
            printf("probe %s: %s\nVIOLATION property=%s replay=%s\n", p.id, m.c_str(), property_id, path.c_str());
            violations++;
        }
    }

    // workers
    auto* stop = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Shared*> sh; std::vector<pid_t> pids; std::vector<int> status(opt.workers, -1);
    std::vector<double> cpu_at(opt.workers, 0); std::vector<uint64_t> last(opt.workers, ~0ull);
    fflush(stdout);
    for(int w = 0; w < opt.workers; w++) {
        sh.push_back(new_shared());
        unlink((opt.work + "/stats" + std::to_string(w)).c_str());
        pid_t pid = fork();
        if(pid == 0) { int rc = worker(w, sh[w], stop); fflush(stdout); _exit(rc); }
        pids.push_back(pid);
    }
    int running = opt.workers; std::vector<bool> hung(opt.workers, false);
    while(running > 0) {
        usleep(20000);
        for(int w = 0; w < opt.workers; w++) {
            if(status[w] != -1) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if(r == pids[w]) { status[w] = st; running--; if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) *stop = 1; continue; }
            if(sh[w]->done != last[w]) { last[w] = sh[w]->done; cpu_at[w] = proc_cpu(pids[w]); }
            else if(proc_cpu(pids[w]) - cpu_at[w] > Hang_Cpu_S) { hung[w] = true; kill(pids[w], SIGKILL); }
        }
    }
    Stats st;
    for(int w = 0; w < opt.workers; w++) merge(st, w);

    int inconclusive = 0;
    struct Cand { uint64_t test, index; int w; };
    std::vector<Cand> cands;
    for(int w = 0; w < opt.workers; w++) {
        int s = status[w];
        if(WIFEXITED(s) && WEXITSTATUS(s) == 0) continue;
        cands.push_back({ sh[w]->test, sh[w]->index, w });
    }
    std::sort(cands.begin(), cands.end(), [](auto& a, auto& b) { return a.test != b.test ? a.test < b.test : a.index < b.index; });
    std::set<uint64_t> seen_tests;
    for(auto& cd : cands) {
        if(violations >= 3) break;
        auto& t = tests()[cd.test]; auto* s = sh[cd.w];
        if(seen_tests.count(cd.test)) continue;
        std::vector<uint64_t> ch(s->rec.data, s->rec.data + s->rec.n);
        bool over = s->rec.overflow; auto* cs = psh;
        int bad = 0, tries = 0; Outcome o;
        double cpu = hung[cd.w] ? Hang_Cpu_S : Hang_Cpu_S;
        if(!over) for(; tries < 3 || (bad < 3 && tries < 8 && !hung[cd.w]); tries++) { auto x = run_child(t, &ch, 0, 0, 1, cs, cpu); if(x.failed) { bad++; o = x; } }
        if(bad >= 1) {
            auto best = o.kind == "hang" || o.kind == "killed" ? ch : shrink(t, ch, o.kind, cs);
            auto fin = run_child(t, &best, 0, 0, 1, cs);
            if(!fin.failed) { best = ch; fin = o; }
            auto path = write_replay(t, &best, 0, 0, 1, fin);
            printf("%s in %s (case %llu, %zu choices, shrunk to %zu):\n%s%s", fin.kind.c_str(), t.name, (unsigned long long)cd.index, ch.size(), best.size(),
                   first_lines(fin.msg, 12).c_str(), first_lines(fin.desc, 30).c_str());
            printf("VIOLATION property=%s replay=%s\n", property_id, path.c_str());
            violations++; seen_tests.insert(cd.test);
            continue;
        }
        // does it need the cases before it (state leaking between cases)?
        bad = 0;
        for(int k = 0; k < 2; k++) { auto x = run_child(t, nullptr, cd.index % opt.workers, cd.index, opt.workers, cs, 600); if(x.failed) { bad++; o = x; } }
        // a sanitizer report is a defect of the code even if the schedule or the heap layout does not repeat
        auto wlog = read_file(log_path("worker" + std::to_string(cd.w)));
        if(bad == 0 && (wlog.find("WARNING: ThreadSanitizer") != std::string::npos || wlog.find("ERROR: AddressSanitizer: heap") != std::string::npos ||
                        wlog.find("ERROR: AddressSanitizer: stack-b") != std::string::npos || wlog.find("runtime error:") != std::string::npos)) {
            bad = 1; o.failed = true; o.kind = "crash"; o.msg = crash_summary(wlog, status[cd.w]);
        }
        if(bad >= 1) {
            auto path = write_replay(t, nullptr, cd.index % opt.workers, cd.index, opt.workers, o);
            printf("%s in %s, needs the preceding cases in the same process:\n%s", o.kind.c_str(), t.name, first_lines(o.msg, 12).c_str());
            printf("VIOLATION property=%s replay=%s\n", property_id, path.c_str());
            violations++; seen_tests.insert(cd.test);
            continue;
        }
        fprintf(stderr, "note: worker %d ended abnormally in %s case %llu (status %x) but it does not reproduce: %s\n", cd.w, t.name,
                (unsigned long long)cd.index, status[cd.w], s->msg);
        fprintf(stderr, "%s\n", first_lines(read_file(log_path("worker" + std::to_string(cd.w))), 60).c_str());
        inconclusive++;
    }
    double wall = now() - t0;
    write_evidence(st, wall, violations, probes().size());
    printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1fs\n", property_id, (unsigned long long)st.evals, st.distinct.size(),
           (unsigned long long)st.discards, wall);
    if(violations) return 1;
    if(inconclusive) printf("note: %d worker(s) ended early without a reproducible failure; inconclusive for their remaining cases\n", inconclusive);
    return 0;
}

}
