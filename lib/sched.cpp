// A deterministic replacement for libgomp and libtsan.
//
// The program under test is compiled with -fopenmp -fsanitize=thread and linked with this file
// instead of the two runtimes.  Every implicit and explicit task runs as a fibre of one OS thread;
// the harness picks which runnable fibre goes on at every scheduling point (region start, task
// creation, taskwait, barrier, loop chunk, critical section, end of a task).  The compiler's memory
// access hooks record which strand (stretch of a task between two scheduling points) touches which
// bytes; two strands that the fork/join structure leaves unordered and that touch a byte, one of them
// writing, without a common lock, are reported.  Without such a conflict all finer interleavings of
// the strands are equivalent to the explored ones.
#include "sched.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <new>
#include <algorithm>

namespace sched {
Options opt; Stats st; std::vector<std::string> races;
static int region_no = 0; static bool busy = true;        // inside the runtime: do not record
static int active = 0;         // inside a parallel region
void reset(int threads, std::function<int(int, int)> choose) { busy = true; opt.threads = threads; opt.choose = choose; st = Stats(); region_no = 0; races.clear(); busy = false; }
struct Busy { bool old; Busy() : old(busy) { busy = true; } ~Busy() { busy = old; } };

// strands and their order
typedef std::vector<uint64_t> Bits;
static std::vector<Bits> before;            // before[s]: strands ordered before s
static std::vector<std::string> sname;
static bool ordered(int a, int b) { return a == b || ((size_t)(a >> 6) < before[b].size() && (before[b][a >> 6] >> (a & 63) & 1)); }
static int strand(const std::vector<int>& preds, const std::string& name) {
    Bits b; for (int p : preds) { if (b.size() < before[p].size()) b.resize(before[p].size()); for (size_t i = 0; i < before[p].size(); i++) b[i] |= before[p][i]; if (b.size() <= (size_t)(p >> 6)) b.resize((p >> 6) + 1); b[p >> 6] |= 1ull << (p & 63); }
    before.push_back(b); sname.push_back(name); st.strands++; return (int)before.size() - 1;
}

// fibres
struct Team;
struct Loop { bool init = false; unsigned long long next = 0, end = 0, inc = 1, chunk = 1; bool up = true; int done = 0, sect = 0, nsect = 0; void* copy = nullptr; };
struct Team { int n = 1; int region = 0; bool single_thread = false; std::map<int, Loop> ws; std::map<int, int> singles; int arrived = 0, gen = 0; std::vector<int> arrived_strands; int fork_strand = 0; int live = 0; };
struct Fiber {
    ucontext_t ctx; char* stack = nullptr; bool started = false, done = false; void (*fn)(void*) = nullptr; void* data = nullptr;
    Team* team = nullptr; int tid = 0; int cur = 0; Fiber* parent = nullptr; int live_children = 0; std::vector<int> child_ends; bool implicit = false;
    enum { RUN, TASKWAIT, BARRIER, LOCK, GROUP } wait = RUN; int wait_gen = 0; void* lock = nullptr; std::vector<void*> locks;
    int ws_no = 0; Loop* loop = nullptr; int single_no = 0; std::string name; std::vector<struct Group*> groups; struct Group* group = nullptr; char eh[16]; unsigned long long lnext = 0; int depth = 0;
    std::vector<std::pair<Team*, int>> nested;   // serialized inner regions
};
struct Group { int live = 0; std::vector<int> ends; Group* up = nullptr; };
static std::deque<Fiber*> fibers;   // live, in creation order
static Fiber* self = nullptr; static ucontext_t main_ctx; static char main_eh[16];
static std::vector<char*> stacks_free, stacks_used; static std::map<void*, Fiber*> lock_owner; static const size_t STK = 1 << 20;
static std::vector<void*> data_used;
static char* get_stack() { if (stacks_free.empty()) { void* p = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); stacks_free.push_back((char*)p); } char* s = stacks_free.back(); stacks_free.pop_back(); stacks_used.push_back(s); return s; }

// memory
struct Acc { int strand; uint8_t mask; bool w; int locks; void* pc; };
struct Cell { uintptr_t key = 0; std::vector<Acc> acc; };
static std::vector<Cell> table; static size_t used = 0; static std::vector<size_t> touched;
static std::vector<std::vector<void*>> locksets; static uintptr_t tls_lo = 0, tls_hi = 0;
static Cell& cell(uintptr_t k) {
    if (table.empty()) table.resize(1 << 14);
    if (used * 2 > table.size()) { std::vector<Cell> t(table.size() * 2); std::vector<size_t> tt; for (size_t i : touched) { size_t h = (table[i].key * 0x9E3779B97F4A7C15ull) >> 20 & (t.size() - 1); while (t[h].key) h = (h + 1) & (t.size() - 1); t[h].key = table[i].key; t[h].acc.swap(table[i].acc); tt.push_back(h); } table.swap(t); touched.swap(tt); }
    size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20 & (table.size() - 1); while (table[h].key && table[h].key != k) h = (h + 1) & (table.size() - 1);
    if (!table[h].key) { table[h].key = k; used++; touched.push_back(h); } return table[h];
}
static void clear_table() { for (size_t i : touched) { table[i].key = 0; table[i].acc.clear(); } touched.clear(); used = 0; }
static std::string fname(void* pc) { Dl_info d; if (!dladdr(pc, &d) || !d.dli_sname) return "?"; int s; char* m = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &s); std::string r = m ? m : d.dli_sname; free(m); size_t p = 0; int lvl = 0; std::string o; for (char ch : r) { if (ch == '<') { if (!lvl++) o += "<>"; } else if (ch == '>' && lvl) lvl--; else if (!lvl) o += ch; } (void)p; if (o.size() > 110) o.resize(110); return o; }
static int lockset() { if (self->locks.empty()) return -1; auto l = self->locks; std::sort(l.begin(), l.end()); for (size_t i = 0; i < locksets.size(); i++) if (locksets[i] == l) return (int)i; locksets.push_back(l); return (int)locksets.size() - 1; }
static bool common(int a, int b) { if (a < 0 || b < 0) return false; for (void* x : locksets[a]) for (void* y : locksets[b]) if (x == y) return true; return false; }
static void touch(uintptr_t a, size_t n, bool w, void* pc) {
    if (a >= tls_lo && a < tls_hi) return;
    Busy b; st.accesses++; int me = self->cur, ls = lockset();
    for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) {
        unsigned lo = k == a >> 3 ? a & 7 : 0, hi = k == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7; uint8_t m = (uint8_t)((0xff << lo) & (0xff >> (7 - hi))); Cell& c = cell(k); bool have = false;
        for (size_t i = 0; i < c.acc.size();) { Acc& o = c.acc[i];
            if (o.strand == me) { if (o.w == w && o.locks == ls) { o.mask |= m; have = true; } i++; continue; }
            if ((o.mask & m) && (o.w || w)) {
                if (!ordered(o.strand, me)) { if (!common(o.locks, ls) && races.size() < 4) races.push_back("unordered conflicting accesses: " + sname[o.strand] + (o.w ? " writes in " : " reads in ") + fname(o.pc) + ", " + sname[me] + (w ? " writes in " : " reads in ") + fname(pc)); }
                else if (w && (o.mask & ~m) == 0) { c.acc[i] = c.acc.back(); c.acc.pop_back(); continue; }
            } i++; }
        if (!have) c.acc.push_back(Acc{me, m, w, ls, pc});
    }
}
static inline void acc(const void* p, size_t n, bool w, void* pc) { if (busy || !active || !self || !n) return; touch((uintptr_t)p, n, w, pc); }

// scheduling
static void finish_fiber();
static void entry() { busy = false; self->fn(self->data); busy = true; finish_fiber(); setcontext(&main_ctx); }
static void swap_eh(char* save, char* load) { char* g = (char*)abi::__cxa_get_globals(); if (save) memcpy(save, g, 16); memcpy(g, load, 16); }
static Fiber* make(Fiber* parent, Team* t, void (*fn)(void*), void* data, int tid, const std::string& name, int strand_) { Fiber* f = new Fiber; f->fn = fn; f->data = data; f->team = t; f->tid = tid; f->parent = parent; f->name = name; f->cur = strand_; memset(f->eh, 0, 16); f->stack = get_stack(); getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = nullptr; makecontext(&f->ctx, entry, 0); t->live++; fibers.push_back(f); return f; }
static void finish_fiber() { Fiber* f = self; f->done = true; f->team->live--; if (!f->locks.empty()) races.push_back(f->name + " ends holding a lock"); if (f->parent) { f->parent->live_children--; f->parent->child_ends.push_back(f->cur); } for (Group* g = f->group; g; g = g->up) { g->live--; g->ends.push_back(f->cur); } f->team->arrived_strands.push_back(f->cur); }
static bool runnable(Fiber* f) {
    if (f->done) return false;
    switch (f->wait) { case Fiber::RUN: return true; case Fiber::TASKWAIT: return f->live_children == 0; case Fiber::BARRIER: return f->team->gen != f->wait_gen; case Fiber::LOCK: return !lock_owner.count(f->lock); case Fiber::GROUP: return f->groups.back()->live == 0; } return false;
}
static void yield() { st.switches++; Fiber* f = self; swapcontext(&f->ctx, &main_ctx); busy = true; }
// runs until every fibre of the region is done; called from the main context
static void run(Team* t) {
    Fiber* last = nullptr;
    while (true) {
        std::vector<Fiber*> r; for (Fiber* f : fibers) if (runnable(f)) r.push_back(f);
        if (r.empty()) { bool all = true; for (Fiber* f : fibers) all &= f->done; if (all) break;
            // a barrier is complete when every implicit task is at it (or ended) and no explicit task is left
            int waiting = 0; bool tasks = false, other = false; for (Fiber* f : fibers) if (!f->done) { if (f->wait == Fiber::BARRIER) waiting++; else if (!f->implicit) tasks = true; else other = true; }
            if (waiting && !tasks && !other) { bool ended = false; for (Fiber* f : fibers) if (f->implicit && f->done) ended = true; if (ended) races.push_back("a barrier is not reached by every thread of the team"); std::vector<int> p = t->arrived_strands; for (Fiber* f : fibers) if (!f->done) p.push_back(f->cur); for (Fiber* f : fibers) if (!f->done) f->cur = strand(p, f->name + " after a barrier"); t->gen++; continue; }
            races.push_back("deadlock: no task can go on"); break; }
        // the fibre that ran last comes first (no preemption), the others in creation order
        auto it = std::find(r.begin(), r.end(), last); if (it != r.end()) std::rotate(r.begin(), it, it + 1);
        // implicit threads that have not started are interchangeable once another one took the single construct
        if (r.size() > 1 && t->single_thread) { std::vector<Fiber*> q; for (Fiber* f : r) if (!(f->implicit && !f->started)) q.push_back(f); if (q.empty() || q.size() < r.size()) { Fiber* n = nullptr; for (Fiber* f : r) if (f->implicit && !f->started) { n = f; break; } if (n) { r.assign(1, n); } } }
        int k = r.size() > 1 && opt.choose ? opt.choose(t->region, (int)r.size()) : 0; Fiber* f = r[k]; f->wait = Fiber::RUN; f->started = true; self = f; Fiber* keep = last; swap_eh(main_eh, f->eh); swapcontext(&main_ctx, &f->ctx); busy = true; swap_eh(f->eh, main_eh); self = nullptr; last = (f->implicit && f->done && t->single_thread && keep) ? keep : f;
    }
}
static void cpu_tls() { static bool once = false; if (once) return; once = true; dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { if (!tls_lo && i->dlpi_tls_data && (!i->dlpi_name || !i->dlpi_name[0])) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_lo = (uintptr_t)i->dlpi_tls_data; tls_hi = tls_lo + i->dlpi_phdr[k].p_memsz; } return 0; }, nullptr); }
static std::vector<void*> quarantine;
struct Hdr { size_t n; size_t pad; };
static void clear_guards();
static void parallel(void (*fn)(void*), void* data, unsigned nthreads, Loop* shared) {
    Busy b; cpu_tls();
    if (self) { // nested: a team of one
        Team* t = new Team; t->n = 1; t->region = self->team->region; Fiber* f = self; f->nested.push_back({f->team, f->tid}); int wn = f->ws_no, sn = f->single_no; Loop* lp = f->loop; f->team = t; f->tid = 0; f->ws_no = f->single_no = 0; f->loop = nullptr; if (shared) { t->ws[0] = *shared; f->loop = &t->ws[0]; f->ws_no = 1; }
        busy = false; fn(data); busy = true; f->team = f->nested.back().first; f->tid = f->nested.back().second; f->nested.pop_back(); f->ws_no = wn; f->single_no = sn; f->loop = lp; delete t; return; }
    Team t; t.n = nthreads ? (int)nthreads : opt.threads; t.region = region_no++; st.regions++; active = 1; before.clear(); sname.clear(); locksets.clear(); int s0 = strand({}, "start"); t.fork_strand = s0; if (shared) t.ws[0] = *shared;
    for (int i = 0; i < t.n; i++) { Fiber* f = make(nullptr, &t, fn, data, i, "thread " + std::to_string(i), 0); f->implicit = true; f->cur = strand({s0}, f->name); if (shared) { f->loop = &t.ws[0]; f->ws_no = 1; } }
    run(&t);
    for (Fiber* f : fibers) delete f; fibers.clear(); for (char* s : stacks_used) stacks_free.push_back(s); stacks_used.clear(); for (void* p : data_used) free(p); data_used.clear(); clear_table(); lock_owner.clear(); clear_guards(); active = 0; for (void* p : quarantine) free(p); quarantine.clear();
}
static Loop* workshare() { Fiber* f = self; return &f->team->ws[f->ws_no++]; }
static bool grab(unsigned long long* s, unsigned long long* e) { // next chunk of a dynamic loop
    Fiber* f = self; yield(); Loop* l = f->loop; st.chunks++; unsigned long long left = l->up ? l->end - l->next : l->next - l->end; if (l->up ? (long long)(l->end - l->next) <= 0 : (long long)(l->next - l->end) <= 0) return false; (void)left;
    unsigned long long step = l->inc * l->chunk; *s = l->next; unsigned long long n = l->next + step; if (l->up ? (long long)(l->end - n) < 0 : (long long)(n - l->end) < 0) n = l->end; l->next = n; *e = n; return true;
}

static void barrier() { if (!self || !self->nested.empty()) return; Fiber* f = self; f->wait = Fiber::BARRIER; f->wait_gen = f->team->gen; yield(); }
static void lock(void* l) { if (!self) return; Fiber* f = self; yield(); while (lock_owner.count(l)) { if (lock_owner[l] == f) { races.push_back(f->name + " waits for a lock it holds"); break; } f->wait = Fiber::LOCK; f->lock = l; yield(); } lock_owner[l] = f; f->locks.push_back(l); }
static void unlock(void* l) { if (!self) return; Fiber* f = self; auto it = std::find(f->locks.begin(), f->locks.end(), l); if (it == f->locks.end()) { races.push_back(f->name + " releases a lock it does not hold"); return; } f->locks.erase(it); lock_owner.erase(l); }
}
using namespace sched;

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nthreads, unsigned) { parallel(fn, data, nthreads, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nthreads, unsigned) { parallel(fn, data, nthreads, nullptr); return opt.threads; }
bool GOMP_single_start() { Busy b; if (!self) return true; Fiber* f = self; int k = f->single_no++; if (f->team->singles[k]++) return false; f->team->single_thread = true; if (f->nested.empty()) yield(); return true; }
void GOMP_barrier() { Busy b; barrier(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
void GOMP_critical_start() { Busy b; static char d; lock(&d); }
void GOMP_critical_end() { Busy b; if (self && !self->locks.empty()) unlock(self->locks.back()); }
void GOMP_critical_name_start(void** p) { Busy b; lock(p); }
void GOMP_critical_name_end(void** p) { Busy b; unlock(p); }
void GOMP_atomic_start() { Busy b; static char d; lock(&d); }
void GOMP_atomic_end() { Busy b; if (self && !self->locks.empty()) unlock(self->locks.back()); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned flags, void** depend, int, void*) {
    Busy b; st.tasks++;
    char* raw = (char*)malloc(size + align + 16); char* arg = raw; if (align > 1) arg = (char*)(((uintptr_t)raw + align - 1) & ~(uintptr_t)(align - 1));
    if (!self || !if_clause || (flags & 2 /* final */)) { if (cpy) { busy = false; cpy(arg, data); busy = true; } else if (size) memcpy(arg, data, size); bool o = busy; busy = false; fn(arg); busy = o; if (self) data_used.push_back(raw); else free(raw); return; }
    data_used.push_back(raw); if (flags & 8) races.push_back("task dependences are not modelled");
    Fiber* f = self; if (cpy) { busy = false; cpy(arg, data); busy = true; } else if (size) { if (active) touch((uintptr_t)data, size, false, __builtin_return_address(0)); busy = true; memcpy(arg, data, size); }
    int s = f->cur; Fiber* t = make(f, f->team, fn, arg, (int)(st.tasks % f->team->n), "task " + std::to_string(st.tasks), 0); t->cur = strand({s}, t->name); t->group = f->groups.empty() ? f->group : f->groups.back(); for (Group* g = t->group; g; g = g->up) g->live++; f->live_children++; f->cur = strand({s}, f->name); yield();
}
void GOMP_taskwait() { Busy b; if (!self) return; Fiber* f = self; f->wait = Fiber::TASKWAIT; yield(); auto p = f->child_ends; p.push_back(f->cur); f->child_ends.clear(); f->cur = strand(p, f->name + " after taskwait"); }
void GOMP_taskyield() { Busy b; if (self) yield(); }
void GOMP_taskgroup_start() { Busy b; if (!self) return; Group* g = new Group; g->up = self->groups.empty() ? self->group : self->groups.back(); self->groups.push_back(g); }
void GOMP_taskgroup_end() { Busy b; if (!self) return; Fiber* f = self; f->wait = Fiber::GROUP; yield(); auto p = f->groups.back()->ends; p.push_back(f->cur); delete f->groups.back(); f->groups.pop_back(); f->cur = strand(p, f->name + " after taskgroup"); }
// loops
#define LOOPS(P, T, KIND) \
bool GOMP_loop##P##KIND##_start(T a, T e, T inc, T chunk, T* s, T* x) { Busy b; if (!self) { static Loop l; *s = a; *x = e; return a != e; } Loop* l = workshare(); self->loop = l; if (!l->init) { l->init = true; l->next = a; l->end = e; l->inc = inc; l->up = (long long)inc > 0; l->chunk = chunk ? chunk : 1; } unsigned long long u, v; if (!grab(&u, &v)) return false; *s = (T)u; *x = (T)v; return true; } \
bool GOMP_loop##P##KIND##_next(T* s, T* x) { Busy b; if (!self) return false; unsigned long long u, v; if (!grab(&u, &v)) return false; *s = (T)u; *x = (T)v; return true; }
#define LOOPS_ULL(KIND) \
bool GOMP_loop_ull##KIND##_start(bool up, unsigned long long a, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long* s, unsigned long long* x) { Busy b; if (!self) { *s = a; *x = e; return a != e; } Loop* l = workshare(); self->loop = l; if (!l->init) { l->init = true; l->next = a; l->end = e; l->inc = inc; l->up = up; l->chunk = chunk ? chunk : 1; } return grab(s, x); } \
bool GOMP_loop_ull##KIND##_next(unsigned long long* s, unsigned long long* x) { Busy b; if (!self) return false; return grab(s, x); }
#define BOTH(KIND) LOOPS(, long, KIND) LOOPS_ULL(KIND)
BOTH(_static) BOTH(_dynamic) BOTH(_guided) BOTH(_nonmonotonic_dynamic) BOTH(_nonmonotonic_guided)
#define RT(KIND) \
bool GOMP_loop##KIND##_start(long a, long e, long inc, long* s, long* x) { return GOMP_loop_dynamic_start(a, e, inc, 1, s, x); } bool GOMP_loop##KIND##_next(long* s, long* x) { return GOMP_loop_dynamic_next(s, x); } \
bool GOMP_loop_ull##KIND##_start(bool up, unsigned long long a, unsigned long long e, unsigned long long inc, unsigned long long* s, unsigned long long* x) { return GOMP_loop_ull_dynamic_start(up, a, e, inc, 1, s, x); } bool GOMP_loop_ull##KIND##_next(unsigned long long* s, unsigned long long* x) { return GOMP_loop_ull_dynamic_next(s, x); }
RT(_runtime) RT(_nonmonotonic_runtime) RT(_maybe_nonmonotonic_runtime)
void GOMP_loop_end() { Busy b; barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { Busy b; barrier(); return false; }
#define PL(KIND) void GOMP_parallel_loop##KIND(void (*fn)(void*), void* data, unsigned n, long a, long e, long inc, long chunk, unsigned) { Loop l; l.init = true; l.next = a; l.end = e; l.inc = inc; l.up = inc > 0; l.chunk = chunk ? chunk : 1; parallel(fn, data, n, &l); }
PL(_static) PL(_dynamic) PL(_guided) PL(_nonmonotonic_dynamic) PL(_nonmonotonic_guided)
#define PLR(KIND) void GOMP_parallel_loop##KIND(void (*fn)(void*), void* data, unsigned n, long a, long e, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, e, inc, 1, f); }
PLR(_runtime) PLR(_nonmonotonic_runtime) PLR(_maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { Busy b; if (!self) return 0; Loop* l = workshare(); self->loop = l; if (!l->init) { l->init = true; l->nsect = n; } yield(); return l->sect < l->nsect ? ++l->sect : 0; }
unsigned GOMP_sections_next() { Busy b; if (!self) return 0; Loop* l = self->loop; yield(); return l->sect < l->nsect ? ++l->sect : 0; }
void GOMP_sections_end() { Busy b; barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Loop l; l.init = true; l.nsect = count; parallel(fn, data, n, &l); }
// taskloop: one task per iteration, inside a taskgroup unless nogroup
static void taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long long a, unsigned long long e, unsigned long long inc, bool up) {
    bool group = !(flags & (1 << 11)); if (flags & (1 << 12)) { Busy b; races.push_back("task reductions are not modelled"); } if (group) GOMP_taskgroup_start();
    for (unsigned long long i = a; up ? (long long)(e - i) > 0 : (long long)(i - e) > 0; i += inc) {
        unsigned long long n = i + inc; if (up ? (long long)(e - n) < 0 : (long long)(n - e) < 0) n = e; char* arg; { Busy b; arg = (char*)malloc(size + align + 16); if (align > 1) arg = (char*)(((uintptr_t)arg + align - 1) & ~(uintptr_t)(align - 1)); }
        if (cpy) cpy(arg, data); else { Busy b; if (self && active) touch((uintptr_t)data, size, false, __builtin_return_address(0)); busy = true; memcpy(arg, data, size); }
        { Busy b; ((unsigned long long*)arg)[0] = i; ((unsigned long long*)arg)[1] = n; if (self && (flags & (1 << 10) || !(flags & 2))) st.tasks++; }
        if (!self || (flags & 2)) { fn(arg); continue; }
        Busy b; Fiber* f = self; int s = f->cur; Fiber* t = make(f, f->team, fn, arg, (int)(st.tasks % f->team->n), "task " + std::to_string(st.tasks), 0); t->cur = strand({s}, t->name); t->group = f->groups.empty() ? f->group : f->groups.back(); for (Group* g = t->group; g; g = g->up) g->live++; f->live_children++; f->cur = strand({s}, f->name); yield();
    }
    if (group) GOMP_taskgroup_end();
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long, int, long a, long e, long inc) { taskloop(fn, data, cpy, size, align, flags, a, e, inc, inc > 0); }
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long, int, unsigned long long a, unsigned long long e, unsigned long long inc) { taskloop(fn, data, cpy, size, align, flags, a, e, inc, flags & (1 << 8)); }
// single copyprivate: the executing thread gets null, the others its data after a barrier
static void* copied = nullptr;
void* GOMP_single_copy_start() { { Busy b; if (!self) return nullptr; if (!self->nested.empty()) return nullptr; Fiber* f = self; int k = f->single_no++; if (!f->team->singles[k]++) { yield(); return nullptr; } } GOMP_barrier(); return copied; }
void GOMP_single_copy_end(void* d) { copied = d; GOMP_barrier(); }
// queries and locks
int omp_get_max_threads() { return opt.threads; }
int omp_get_num_threads() { return self ? self->team->n : 1; }
int omp_get_thread_num() { return self ? self->tid : 0; }
int omp_get_num_procs() { return opt.threads; }
int omp_in_parallel() { return self && self->team->n > 1; }
int omp_get_level() { return self ? 1 + (int)self->nested.size() : 0; }
int omp_get_active_level() { return self && self->team->n > 1; }
int omp_get_thread_limit() { return opt.threads; }
void omp_set_num_threads(int n) { opt.threads = n; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; } void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; }
int omp_in_final() { return 0; } int omp_get_team_size(int) { return self ? self->team->n : 1; } int omp_get_ancestor_thread_num(int l) { return l && self ? self->tid : 0; } int omp_get_num_teams() { return 1; } int omp_get_team_num() { return 0; } int omp_get_cancellation() { return 0; } int omp_get_supported_active_levels() { return 1; } int omp_get_max_task_priority() { return 0; } int omp_is_initial_device() { return 1; } int omp_get_num_places() { return 0; } int omp_get_proc_bind() { return 0; } int omp_get_place_num() { return -1; } void omp_set_schedule(int, int) {} void omp_get_schedule(int* k, int* n) { *k = 2; *n = 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* l) { Busy b; lock(l); } void omp_unset_lock(void* l) { Busy b; unlock(l); } int omp_test_lock(void* l) { Busy b; if (lock_owner.count(l)) return 0; lock(l); return 1; }
// mutexes and once-only initialisation of function-local statics
int __real_pthread_mutex_lock(void*); int __real_pthread_mutex_unlock(void*); int __real_pthread_mutex_trylock(void*);
int __wrap_pthread_mutex_lock(void* m) { if (!self || busy) return 0; Busy b; lock(m); return 0; }
int __wrap_pthread_mutex_unlock(void* m) { if (!self || busy) return 0; Busy b; unlock(m); return 0; }
int __wrap_pthread_mutex_trylock(void* m) { if (!self || busy) return 0; Busy b; if (lock_owner.count(m)) return 16; lock(m); return 0; }
static std::map<uintptr_t, int> guards;   // guard -> strand that released it, this region
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) { return __real___cxa_guard_acquire(g); }
void __wrap___cxa_guard_release(void* g) { __real___cxa_guard_release(g); if (!self || busy || !active) return; Busy b; Fiber* f = self; guards[(uintptr_t)g] = f->cur; f->cur = strand({f->cur}, f->name); }
static void guard_read(const volatile void* p) { if (busy || !self || !active || guards.empty()) return; Busy b; auto it = guards.find((uintptr_t)p); if (it == guards.end() || it->second >= (int)before.size()) return; Fiber* f = self; if (ordered(it->second, f->cur)) return; f->cur = strand({f->cur, it->second}, f->name); }
// compiler hooks
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { acc(p, N, false, PC); } void __tsan_write##N(void* p) { acc(p, N, true, PC); } void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); } void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false, PC); } void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); } void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T* p, int) { guard_read(p); return __atomic_load_n(p, 5); } void __tsan_atomic##B##_store(volatile T* p, T v, int) { __atomic_store_n(p, v, 5); } T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } \
 T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, 5); } T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { return __atomic_fetch_nand(p, v, 5); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { acc(d, n, true, PC); return __real_memset(d, v, n); }
int __wrap_memcmp(const void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, false, PC); return __real_memcmp(d, s, n); }
}
void sched::clear_guards() { guards.clear(); }
// heap: nothing is reused while a region runs, so that addresses identify objects
static void* get(size_t n) { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); if (!h) throw std::bad_alloc(); h->n = n; return h + 1; }
static void put(void* p, void* pc) { if (!p) return; Hdr* h = (Hdr*)p - 1; if (active && !busy && self) { acc(p, h->n, true, pc); Busy b; quarantine.push_back(h); } else free(h); }
void* operator new(size_t n) { return get(n); } void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); if (!h) return nullptr; h->n = n; return h + 1; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); if (!h) return nullptr; h->n = n; return h + 1; }
void operator delete(void* p) noexcept { put(p, PC); } void operator delete[](void* p) noexcept { put(p, PC); } void operator delete(void* p, size_t) noexcept { put(p, PC); } void operator delete[](void* p, size_t) noexcept { put(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p, PC); } void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p, PC); }
