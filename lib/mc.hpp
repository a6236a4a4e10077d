// Bounded-exhaustive explorer for the real BATS code (stateless model checking).
//
// A harness is a set of PARTs.  Each part is a function of a Ctx; every nondeterministic
// decision (input shape, matrix entry, operation, option, schedule step) is taken with
// ctx.choose(n).  The driver enumerates *all* choice sequences depth first.  A case is one
// complete execution; its choice sequence is its replay id.
//
//   prog run   --tier T --jobs J --out FILE --replaydir DIR --known FILE --property ID [--only PART]
//   prog replay PART:c0,c1,...       (one case, verbose)
//   prog list
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <iostream>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>

namespace mc {

struct Prune {};                     // this branch belongs to another shard or is outside the input domain
struct Violation { std::string key, msg; };

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
struct Hash {
    uint64_t h = 0x1234567;
    Hash& operator()(uint64_t v) { h = mix(h, v); return *this; }
    template <class It> Hash& range(It a, It b) { (*this)(0x77); for (; a != b; ++a) (*this)((uint64_t)*a); return *this; }
    Hash& str(const std::string& s) { for (unsigned char c : s) (*this)(c); return *this; }
};

// growable open-addressing set of 64-bit hashes
struct HSet {
    std::vector<uint64_t> t; size_t n = 0; bool zero = false;
    HSet() : t(1024, 0) {}
    void insert(uint64_t v) {
        if (!v) { if (!zero) { zero = true; n++; } return; }
        if (2 * (n + 1) > t.size()) {
            std::vector<uint64_t> o(t.size() * 2, 0); o.swap(t); size_t m = n; n = zero ? 1 : 0;
            for (auto x : o) if (x) ins(x);
            (void)m;
        }
        ins(v);
    }
    void ins(uint64_t v) {
        size_t i = v & (t.size() - 1);
        while (t[i]) { if (t[i] == v) return; i = (i + 1) & (t.size() - 1); }
        t[i] = v; n++;
    }
};

struct Ctx {
    // exploration state
    std::vector<int> prefix, taken, width;
    size_t changed = 0;                 // first index at which this execution differs from the previous
    long shard_counter = -1; int shard = 0, nshards = 1; bool sharded = false, all_shards = false;
    int tier = 0;
    bool verbose = false; std::ostringstream desc;
    // statistics
    uint64_t cases = 0, pruned = 0, transitions = 0, evals = 0, nontrivial = 0; size_t maxdepth = 0;
    HSet states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> known_hits;
    const std::set<std::string>* known = nullptr;
    bool nontriv_case = false;

    int choose(int n) {
        if (n <= 0) throw Prune{};
        size_t p = taken.size();
        int v = 0;
        if (p < prefix.size()) {
            v = prefix[p];
            if (v >= n) { fprintf(stderr, "mc: divergence while replaying a prefix (choice %zu: %d of %d)\n", p, v, n); throw Violation{"nondeterminism", "replay of a choice prefix diverged"}; }
        }
        taken.push_back(v); width.push_back(n);
        return v;
    }
    bool flip() { return choose(2) == 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive
    // Partition the space between worker processes: the branch below this point belongs to one shard.
    void shard_here() {
        if (sharded) return;
        sharded = true;
        if (all_shards) return;
        if (changed < taken.size() || shard_counter < 0) shard_counter++;
        if (shard_counter % nshards != shard) { throw Prune{}; }
    }
    [[noreturn]] void prune() { throw Prune{}; }
    void op(uint64_t n = 1) { transitions += n; }
    void state(uint64_t h) { states.insert(h); }
    void outcome(uint64_t h) { outcomes.insert(h); }
    void interesting() { nontriv_case = true; }
    template <class T> Ctx& operator<<(const T& x) { if (verbose) desc << x; return *this; }
    void fail(const std::string& msg, const std::string& key = "") {
        if (!key.empty() && known && known->count(key)) { known_hits[key]++; return; }
        throw Violation{key, msg};
    }
    // runs fn in a forked child: 0 it returned, 1 it threw, 2 it crashed or did not come back (10 s)
    template <class F> int survives(F&& fn) {
        fflush(nullptr); pid_t pid = fork(); if (pid < 0) throw std::runtime_error("fork failed");
        if (pid == 0) { for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) signal(s, SIG_DFL); int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); dup2(n, 2); } alarm(10); int r = 0; try { fn(); } catch (...) { r = 1; } _exit(r); }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} return WIFEXITED(st) && WEXITSTATUS(st) <= 1 ? WEXITSTATUS(st) : 2;
    }
    void check(bool ok, const char* msg, const std::string& key = "") { evals++; if (!ok) fail(msg, key); }
    void check(bool ok, const std::string& msg, const std::string& key = "") { evals++; if (!ok) fail(msg, key); }
    template <class F> void checkf(bool ok, F&& f, const std::string& key = "") { evals++; if (!ok) fail(f(), key); }
};

struct Part { std::string name; std::function<void(Ctx&)> fn; int min_tier; };
inline std::vector<Part>& parts() { static std::vector<Part> p; return p; }
struct Reg { Reg(const char* n, std::function<void(Ctx&)> f, int mt = 0) { parts().push_back({n, f, mt}); } };
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define PART(name) static void MC_CAT(part_, __LINE__)(mc::Ctx&); static mc::Reg MC_CAT(reg_, __LINE__)(name, MC_CAT(part_, __LINE__)); static void MC_CAT(part_, __LINE__)(mc::Ctx& c)
#define PART_THOROUGH(name) static void MC_CAT(part_, __LINE__)(mc::Ctx&); static mc::Reg MC_CAT(reg_, __LINE__)(name, MC_CAT(part_, __LINE__), 1); static void MC_CAT(part_, __LINE__)(mc::Ctx& c)

// ---- crash / hang capture ---------------------------------------------------------------
inline Ctx*& cur() { static Ctx* c = nullptr; return c; }
inline int& crash_fd() { static int fd = -1; return fd; }
inline volatile uint64_t& case_no() { static volatile uint64_t n = 0; return n; }
inline void dump_crash(const char* why) {
    int fd = crash_fd(); if (fd < 0) return;
    char buf[64]; auto w = [&](const char* s) { ssize_t r = write(fd, s, strlen(s)); (void)r; };
    w("CRASH "); w(why); w("\n");
    Ctx* c = cur();
    if (c) for (size_t i = 0; i < c->taken.size(); i++) { int n = snprintf(buf, sizeof buf, i ? ",%d" : "%d", c->taken[i]); ssize_t r = write(fd, buf, n); (void)r; }
    w("\n");
}
inline void on_crash(int sig) {
    static volatile sig_atomic_t again = 0; if (again) _exit(98); again = 1;
    char b[32]; snprintf(b, sizeof b, "signal %d", sig);
    dump_crash(sig == SIGSEGV ? "invalid memory access (SIGSEGV)" : sig == SIGABRT ? "abort (assertion or allocator check)" : sig == SIGFPE ? "arithmetic trap (SIGFPE)" : b);
    _exit(97);
}
inline void on_prof(int) {
    static uint64_t last = ~0ULL; static int ticks = 0;
    if (case_no() == last) { if (++ticks >= 6) { dump_crash("no progress in one case for 30 s of CPU time (non-termination)"); _exit(96); } }
    else { last = case_no(); ticks = 0; }
}
inline void arm(bool asan) {
    static char altstack[1 << 16];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction sp{}; sp.sa_handler = on_prof; sp.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sp, nullptr);
    struct itimerval it{}; it.it_interval.tv_sec = 5; it.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &it, nullptr);
    if (!asan) { struct rlimit rl{3500ull << 20, 3500ull << 20}; setrlimit(RLIMIT_AS, &rl); }
    struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
}
#if defined(__SANITIZE_ADDRESS__)
static const bool kAsan = true;
extern "C" void __asan_set_death_callback(void (*)(void));
inline void asan_death() { dump_crash("AddressSanitizer error"); }
#else
static const bool kAsan = false;
#endif

inline std::string choices_str(const std::vector<int>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s; }
inline std::vector<int> parse_choices(const std::string& s) { std::vector<int> v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str())); return v; }

// one execution; returns false if pruned.  Throws Violation.
inline bool execute(const Part& p, Ctx& c) {
    c.taken.clear(); c.width.clear(); c.sharded = false; c.nontriv_case = false;
    case_no() = case_no() + 1;
    try { p.fn(c); }
    catch (Prune&) { c.pruned++; return false; }
    catch (Violation&) { throw; }
    catch (std::bad_alloc&) { throw Violation{"", "memory exhausted (bad_alloc) on a tiny input"}; }
    catch (std::exception& e) { throw Violation{"", std::string("unexpected exception: ") + e.what()}; }
    catch (const char* e) { throw Violation{"", std::string("unexpected exception: ") + e}; }
    catch (std::string& e) { throw Violation{"", std::string("unexpected exception: ") + e}; }
    catch (...) { throw Violation{"", "unexpected exception"}; }
    if (!c.sharded && !c.all_shards && c.shard != 0) { c.pruned++; return false; }
    return true;
}

struct Result { bool violated = false, capped = false; std::string key, msg; std::vector<int> choices; };

inline Result explore(const Part& p, Ctx& c, double deadline) {
    Result r; cur() = &c;
    struct timeval t0, t1; gettimeofday(&t0, nullptr);
    c.prefix.clear(); c.changed = 0;
    for (uint64_t n = 0;; n++) {
        bool want_sample = c.samples.size() < 2 && (c.shard == 0) && (c.cases == 3 || c.cases == 40);
        c.verbose = want_sample; if (want_sample) { c.desc.str(""); }
        try {
            if (execute(p, c)) {
                c.cases++; if (c.nontriv_case) c.nontrivial++;
                if (c.taken.size() > c.maxdepth) c.maxdepth = c.taken.size();
                if (want_sample) c.samples.push_back(p.name + ":" + choices_str(c.taken) + " " + c.desc.str());
            }
        } catch (Violation& v) { r.violated = true; r.key = v.key; r.msg = v.msg; r.choices = c.taken; return r; }
        // next in lexicographic order
        size_t k = c.taken.size();
        while (k > 0 && c.taken[k - 1] + 1 >= c.width[k - 1]) k--;
        if (k == 0) return r;
        c.prefix.assign(c.taken.begin(), c.taken.begin() + k); c.prefix[k - 1]++; c.changed = k - 1;
        if ((n & 255) == 0) { gettimeofday(&t1, nullptr); if (t1.tv_sec - t0.tv_sec > deadline) { r.capped = true; return r; } }
    }
}

inline std::string jesc(const std::string& s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32) o += ' '; else if (ch > 126) o += '?'; else o += ch; } return o;
}

// child protocol: result file with lines
inline void child_main(const Part& p, int shard, int nshards, int tier, double deadline, const std::string& file, const std::set<std::string>* known) {
    crash_fd() = open((file + ".crash").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    arm(kAsan);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(asan_death);
#endif
    Ctx c; c.shard = shard; c.nshards = nshards; c.tier = tier; c.known = known;
    Result r = explore(p, c, deadline);
    std::ofstream f(file);
    f << "stats " << c.cases << " " << c.pruned << " " << c.transitions << " " << c.evals << " " << c.nontrivial << " " << c.maxdepth << " " << (r.capped ? 1 : 0) << "\n";
    for (auto& k : c.known_hits) f << "known " << k.second << " " << k.first << "\n";
    for (auto& s : c.samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ' '); f << "sample " << t << "\n"; }
    if (r.violated) { f << "violation " << choices_str(r.choices) << "\n"; std::string m = r.msg; std::replace(m.begin(), m.end(), '\n', ' '); f << "message " << m << "\n" << "vkey " << r.key << "\n"; }
    f << "end\n"; f.close();
    auto dump = [&](const HSet& s, const std::string& fn) { std::ofstream g(fn, std::ios::binary); for (auto x : s.t) if (x) g.write((char*)&x, 8); if (s.zero) { uint64_t z = 0; g.write((char*)&z, 8); } };
    dump(c.states, file + ".st"); dump(c.outcomes, file + ".oc");
    _exit(r.violated ? 1 : 0);
}

inline void silence() { int d = open("/dev/null", O_WRONLY); dup2(d, 1); close(d); }

struct VRec { std::string part, msg, key, choices; int shard, nshards; };

// run a single case in a child; returns (violated, message+desc)
inline bool replay_case(const Part& p, const std::vector<int>& ch, int tier, std::string& text, const std::set<std::string>* known, const std::string& tmp) {
    std::string file = tmp + "/replay_out";
    pid_t pid = fork();
    if (pid == 0) {
        silence();
        crash_fd() = open((file + ".crash").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        arm(kAsan);
#if defined(__SANITIZE_ADDRESS__)
        __asan_set_death_callback(asan_death);
#endif
        Ctx c; c.all_shards = true; c.tier = tier; c.verbose = true; c.prefix = ch; c.known = known; cur() = &c;
        std::ofstream f(file); int rc = 0;
        try { execute(p, c); f << "no violation\n"; } catch (Violation& v) { f << "VIOLATION: " << v.msg << (v.key.empty() ? "" : " [key " + v.key + "]") << "\n"; rc = 1; }
        f << c.desc.str() << "\n"; f.close(); _exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0);
    std::ifstream f(file), g(file + ".crash"); std::stringstream ss; 
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 0)) ss << f.rdbuf(); else ss << g.rdbuf() << " (process died)";
    text = ss.str(); unlink(file.c_str()); unlink((file + ".crash").c_str());
    return bad;
}

inline int main_impl(int argc, char** argv) {
#ifndef MC_THREADS
    // parallel regions run with a team of one (schedules are explored by the C24 harness); libgomp reads this at start-up only
    if (!getenv("OMP_THREAD_LIMIT")) { setenv("OMP_THREAD_LIMIT", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }
#endif
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "run";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    int tier = 0; { const char* t = getenv("VERIF_TIER"); if (t && std::string(t) == "thorough") tier = 1; } if (a.count("--tier")) tier = a["--tier"] == "thorough";
    std::set<std::string> known; if (a.count("--known")) { std::ifstream f(a["--known"]); std::string l; while (std::getline(f, l)) if (!l.empty()) known.insert(l); }
    std::string only = a.count("--only") ? a["--only"] : "";
    if (mode == "list") { for (auto& p : parts()) std::cout << p.name << "\n"; return 0; }
    char tmpl[] = "/tmp/mcXXXXXX"; std::string tmp = mkdtemp(tmpl);
    auto cleanup = [&]() { std::string cmd = "rm -rf " + tmp; int r = system(cmd.c_str()); (void)r; };
    if (mode == "replay") {
        std::string s = argc > 2 ? argv[2] : ""; size_t q = s.rfind(':'); std::string nm = s.substr(0, q);
        if (argc > 3 && std::string(argv[3]) == "thorough") tier = 1;
        for (auto& p : parts()) if (p.name == nm) { std::string text; bool bad = replay_case(p, parse_choices(s.substr(q + 1)), tier, text, nullptr, tmp); std::cout << text << std::endl; cleanup(); return bad ? 1 : 0; }
        std::cout << "no such part\n"; cleanup(); return 2;
    }
    int jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
    int nshards = a.count("--shards") ? atoi(a["--shards"].c_str()) : 3 * jobs;
    double deadline = a.count("--deadline") ? atof(a["--deadline"].c_str()) : 600;
    struct Task { int part, shard; }; std::vector<Task> tasks;
    for (int i = 0; i < (int)parts().size(); i++) { if (parts()[i].min_tier > tier) continue; if (!only.empty() && parts()[i].name.find(only) == std::string::npos) continue; for (int s = 0; s < nshards; s++) tasks.push_back({i, s}); }
    std::map<pid_t, Task> running; size_t next = 0; std::vector<VRec> viol; std::set<int> dead_parts; bool infra = false;
    auto fname = [&](Task t) { return tmp + "/r" + std::to_string(t.part) + "_" + std::to_string(t.shard); };
    while (next < tasks.size() || !running.empty()) {
        while (next < tasks.size() && (int)running.size() < jobs) {
            Task t = tasks[next++]; if (dead_parts.count(t.part)) continue;
            pid_t pid = fork();
            if (pid == 0) { silence(); child_main(parts()[t.part], t.shard, nshards, tier, deadline, fname(t), &known); }
            running[pid] = t;
        }
        if (running.empty()) break;
        int st; pid_t pid = wait(&st); auto it = running.find(pid); if (it == running.end()) continue; Task t = it->second; running.erase(it);
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok) {
            dead_parts.insert(t.part); VRec v; v.part = parts()[t.part].name; v.shard = t.shard; v.nshards = nshards;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { std::ifstream f(fname(t)); std::string l; while (std::getline(f, l)) { if (l.rfind("violation ", 0) == 0) v.choices = l.substr(10); if (l.rfind("message ", 0) == 0) v.msg = l.substr(8); if (l.rfind("vkey ", 0) == 0) v.key = l.substr(5); } viol.push_back(v); }
            else { std::ifstream f(fname(t) + ".crash"); std::string l1, l2; std::getline(f, l1); std::getline(f, l2);
                if (l1.rfind("CRASH", 0) == 0) { v.msg = l1; v.choices = l2; viol.push_back(v); }
                else { infra = true; fprintf(stderr, "mc: worker for part %s died without a report (status %d)\n", v.part.c_str(), st); } }
        }
    }
    // merge
    std::ostringstream js; js << "{\"parts\":["; bool first = true; std::map<std::string, uint64_t> kh; 
    for (int i = 0; i < (int)parts().size(); i++) {
        if (parts()[i].min_tier > tier) continue; if (!only.empty() && parts()[i].name.find(only) == std::string::npos) continue;
        uint64_t s[6] = {0}; int capped = 0; std::vector<std::string> samp; std::vector<uint64_t> st, oc;
        for (int sh = 0; sh < nshards; sh++) {
            std::ifstream f(fname({i, sh})); std::string l;
            while (std::getline(f, l)) {
                std::stringstream ss(l); std::string w; ss >> w;
                if (w == "stats") { uint64_t x[7]; for (auto& y : x) ss >> y; for (int k = 0; k < 5; k++) s[k] += x[k]; s[5] = std::max(s[5], x[5]); capped |= (int)x[6]; }
                else if (w == "known") { uint64_t n; std::string k; ss >> n >> k; kh[k] += n; }
                else if (w == "sample") samp.push_back(l.substr(7));
            }
            auto rd = [&](std::vector<uint64_t>& v, const std::string& fn) { std::ifstream g(fn, std::ios::binary | std::ios::ate); if (!g) return; size_t n = g.tellg() / 8, o = v.size(); v.resize(o + n); g.seekg(0); g.read((char*)(v.data() + o), n * 8); };
            rd(st, fname({i, sh}) + ".st"); rd(oc, fname({i, sh}) + ".oc");
        }
        auto uniq = [](std::vector<uint64_t>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size(); };
        if (!first) js << ","; first = false;
        js << "{\"name\":\"" << jesc(parts()[i].name) << "\",\"executions\":" << s[0] << ",\"transitions\":" << s[2] << ",\"comparisons\":" << s[3] << ",\"nontrivial\":" << s[4] << ",\"max_choices\":" << s[5]
           << ",\"states\":" << uniq(st) << ",\"outcomes\":" << uniq(oc) << ",\"capped\":" << (capped ? "true" : "false") << ",\"samples\":[";
        for (size_t k = 0; k < samp.size() && k < 2; k++) js << (k ? "," : "") << "\"" << jesc(samp[k].substr(0, 600)) << "\"";
        js << "]}";
    }
    js << "],\"known\":{"; first = true; for (auto& k : kh) { js << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
    js << "},\"violations\":["; first = true;
    // confirm and write replay files
    std::stable_sort(viol.begin(), viol.end(), [](const VRec& x, const VRec& y) { return x.part < y.part || (x.part == y.part && x.choices.size() < y.choices.size()); });
    std::set<std::string> seenp; int nrep = 0;
    for (auto& v : viol) {
        if (seenp.count(v.part)) continue; seenp.insert(v.part);
        const Part* p = nullptr; for (auto& q : parts()) if (q.name == v.part) p = &q;
        std::string text; bool rep = replay_case(*p, parse_choices(v.choices), tier, text, nullptr, tmp); std::string kind = "case";
        if (!rep) { // depends on history in the process: re-run the shard from its start
            kind = "history"; pid_t pid = fork(); Task t{(int)(p - &parts()[0]), v.shard};
            if (pid == 0) { silence(); child_main(*p, v.shard, v.nshards, tier, deadline, fname(t), &known); }
            int st; waitpid(pid, &st, 0); rep = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        }
        std::string rf = (a.count("--replaydir") ? a["--replaydir"] : tmp) + "/" + (a.count("--property") ? a["--property"] + "_" : "") + std::to_string(nrep++) + ".replay";
        std::ofstream f(rf); f << "part: " << v.part << "\ncase: " << v.part << ":" << v.choices << "\ntier: " << (tier ? "thorough" : "quick") << "\nkind: " << kind << " (shard " << v.shard << " of " << v.nshards << ")\nreproduced: " << (rep ? "yes" : "no") << "\nmessage: " << v.msg << "\n---\n" << text << "\n";
        js << (first ? "" : ",") << "{\"part\":\"" << jesc(v.part) << "\",\"case\":\"" << jesc(v.choices) << "\",\"message\":\"" << jesc(v.msg) << "\",\"key\":\"" << jesc(v.key) << "\",\"reproduced\":" << (rep ? "true" : "false") << ",\"kind\":\"" << kind << "\",\"replay\":\"" << jesc(rf) << "\"}"; first = false;
    }
    js << "],\"infra_error\":" << (infra ? "true" : "false") << "}";
    if (a.count("--out")) { std::ofstream f(a["--out"]); f << js.str() << "\n"; } else std::cout << js.str() << std::endl;
    cleanup();
    return infra ? 2 : viol.empty() ? 0 : 1;
}
} // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
#endif
