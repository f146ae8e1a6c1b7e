// A controlled OpenMP runtime with happens-before race detection.
//
// The library is compiled with -fopenmp -fsanitize=thread and linked with this file in place of libgomp and the
// sanitizer's runtime.  Virtual threads are real threads (thread-local state such as NTL's modulus behaves as in
// production) that pass a baton: exactly one runs at a time.  Choice points are the starts of the threads, the
// requests for further loop iterations, entries of critical sections and locks, barriers and ends of threads.
// Every access of the library to memory, and the accesses made on its behalf inside NTL's integer layer and FLINT,
// are checked against the happens-before order of the execution.
#include "ompsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {
enum { MAXT = 96 };
struct VC { uint32_t c[MAXT]; };
typedef std::map<const void *, VC> SyncMap;

struct Team;
struct Loop { long next, end, incr, chunk; int kind; std::vector<long> mine; };  // kind 0 dynamic, 1 guided, 2 static
struct Ctx { Team *team; int tid; unsigned wsn; Ctx *up; };
struct Team { int T; int level; int active; void (*fn)(void *); void *data; std::vector<Loop *> loops; std::vector<long> sections; std::vector<char> single; Loop *first = nullptr; };

struct Thr {
    int go = 0;
    enum { PARKED, READY, LOCK, BARRIER, DONE } st = PARKED;
    const void *lock = nullptr;
    uint32_t bar = 0;
    VC vc;
    pthread_t th;
    int icv = 1;
};
Thr *thr[MAXT];
int nthr = 0;           // threads created (thr[0] is the master)
pid_t pool_pid = 0;
__thread int me = 0;    // index of this virtual thread
__thread Ctx *ctx = nullptr;
__thread int icv_own = 0;
int icv0 = 1;

sched::Options opt;
sched::Result res;
bool running = false;       // between begin() and end()
Team *team = nullptr;       // the active team of more than one thread
bool inregion = false, choices = false, tracking = false;
int cur = 0;                // who holds the baton
struct Lock { int owner = -1; int depth = 0; VC vc; bool has = false; };
std::map<const void *, Lock> *locks;
SyncMap *syncs;
std::set<std::pair<const void *, const void *>> *seen;
size_t devpos = 0;
char crit_default;

void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void wait_go(int t) { Thr *x = thr[t]; while (!__atomic_load_n(&x->go, __ATOMIC_ACQUIRE)) futex_wait(&x->go, 0); __atomic_store_n(&x->go, 0, __ATOMIC_RELEASE); }
void hand(int t) { cur = t; __atomic_store_n(&thr[t]->go, 1, __ATOMIC_RELEASE); futex_wake(&thr[t]->go); }

// ---------------------------------------------------------------- race detection
struct Cell { uintptr_t key; uint32_t epoch; uint32_t wclk; uint16_t wtid; uint16_t r1; uint32_t r1clk; uint32_t rvec; const void *wpc, *rpc; bool sub; };
enum { NONE = 0xffff, SH = 21 };
Cell *table = nullptr;
uint64_t used = 0;
uint32_t epoch = 1;
std::vector<uint32_t> *pool;   // read vectors, bump allocated per region
std::unordered_map<uintptr_t, Cell> *bytes;   // accesses smaller than a word

Cell *cell(uintptr_t key, bool make) {
    uint64_t h = (key >> 3) * 0x9E3779B97F4A7C15ull >> (64 - SH);
    for (;; h = (h + 1) & ((1u << SH) - 1)) {
        Cell *c = table + h;
        if (c->epoch == epoch) { if (c->key == key) return c; continue; }
        if (!make) return nullptr;
        if (used > (3u << SH) / 4) { res.overflow = true; return nullptr; }
        ++used;
        c->key = key; c->epoch = epoch; c->wtid = NONE; c->r1 = NONE; c->rvec = 0; c->sub = false; return c;
    }
}
std::string where(const void *pc) {
    Dl_info d; char b[64];
    if (dladdr(pc, &d) && d.dli_sname) { int st; char *n = abi::__cxa_demangle(d.dli_sname, 0, 0, &st); std::string s = n ? n : d.dli_sname; free(n); size_t k = s.find('('); if (k != std::string::npos && k > 0) s = s.substr(0, k); snprintf(b, sizeof b, "+0x%lx", (unsigned long)((char *)pc - (char *)d.dli_saddr)); return s + b; }
    if (dladdr(pc, &d)) { snprintf(b, sizeof b, "0x%lx", (unsigned long)((char *)pc - (char *)d.dli_fbase)); return b; }
    snprintf(b, sizeof b, "%p", pc); return b;
}
void race(const char *what, const void *pc, const void *other, int t, int u) {
    if (res.races.size() >= 6 || !seen->insert(std::make_pair(pc, other)).second) return;
    bool k = tracking; tracking = false;
    char b[128]; snprintf(b, sizeof b, "%s without synchronisation, by threads %d and %d of region %d: ", what, u, t, res.regions - 1);
    res.races.push_back(b + where(other) + " and " + where(pc));
    tracking = k;
}
void on_cell(Cell *c, bool write, const void *pc) {
    const VC &v = thr[me]->vc; int t = me;
    if (c->wtid != NONE && c->wtid != t && c->wclk > v.c[c->wtid]) race(write ? "two writes" : "a write and a read", pc, c->wpc, t, c->wtid);
    if (!write) {
        if (c->rvec) { (*pool)[c->rvec + t] = v.c[t]; c->rpc = pc; return; }
        if (c->r1 == NONE || c->r1 == t || c->r1clk <= v.c[c->r1]) { c->r1 = t; c->r1clk = v.c[t]; c->rpc = pc; return; }
        c->rvec = pool->size(); pool->resize(pool->size() + team->T, 0);
        (*pool)[c->rvec + c->r1] = c->r1clk; (*pool)[c->rvec + t] = v.c[t]; c->rpc = pc;
        return;
    }
    if (c->rvec) { for (int u = 0; u < team->T; ++u) if (u != t && (*pool)[c->rvec + u] > v.c[u]) { race("a read and a write", pc, c->rpc, t, u); break; } }
    else if (c->r1 != NONE && c->r1 != t && c->r1clk > v.c[c->r1]) race("a read and a write", pc, c->rpc, t, c->r1);
    c->wtid = t; c->wclk = v.c[t]; c->wpc = pc; c->r1 = NONE; c->rvec = 0;
}
void touch(const void *p, size_t n, bool write, const void *pc) {
    if (!n) return;
    tracking = false;   // nothing below is the library's
    ++res.accesses;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t w = a & ~(uintptr_t)7;
        if (a == w && e - a >= 8) {
            Cell *c = cell(w, true); if (!c) break; on_cell(c, write, pc);
            if (c->sub) for (int i = 0; i < 8; ++i) { auto it = bytes->find(w + i); if (it != bytes->end()) on_cell(&it->second, write, pc); }
            a += 8; continue;
        }
        Cell *c = cell(w, true); if (!c) break;
        for (; a < e && a < w + 8; ++a) {
            c->sub = true;
            auto it = bytes->find(a);
            if (it == bytes->end()) { Cell z = *c; z.key = a; if (z.rvec) { std::vector<uint32_t> v(pool->begin() + z.rvec, pool->begin() + z.rvec + team->T); z.rvec = pool->size(); pool->insert(pool->end(), v.begin(), v.end()); } it = bytes->emplace(a, z).first; }   // starts from the word's history
            on_cell(&it->second, write, pc);
        }
    }
    tracking = true;
}
void fresh(void *p, size_t n) {   // newly allocated memory has no history
    if (!p) return;
    tracking = false;
    uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = (uintptr_t)p + n;
    for (; a < e; a += 8) if (Cell *c = cell(a, false)) { c->wtid = NONE; c->r1 = NONE; c->rvec = 0; if (c->sub) { for (int i = 0; i < 8; ++i) bytes->erase(a + i); c->sub = false; } }
    tracking = true;
}
inline bool watch() { return tracking && ctx; }
#define PC __builtin_return_address(0)
void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void acquire(const void *p) { if (!inregion) return; bool k = tracking; tracking = false; auto it = syncs->find(p); if (it != syncs->end()) join(thr[me]->vc, it->second); tracking = k; }
void release(const void *p) { if (!inregion) return; bool k = tracking; tracking = false; auto it = syncs->find(p); if (it == syncs->end()) it = syncs->insert(std::make_pair(p, VC())).first, memset(&it->second, 0, sizeof(VC)); join(it->second, thr[me]->vc); thr[me]->vc.c[me]++; tracking = k; }

// ---------------------------------------------------------------- scheduling
// picks the next thread among those that can run; the current thread may be one of them
int pick(bool choosable) {
    int T = team->T, c[MAXT], n = 0, first = opt.policy == sched::ROUND_ROBIN ? 1 : 0;
    for (int k = 0; k < T; ++k) {
        int t = (me + first + k) % T; Thr *x = thr[t];
        bool ok = x->st == Thr::READY || (x->st == Thr::LOCK && (*locks)[x->lock].owner < 0);
        if (ok) c[n++] = t;
    }
    if (!n) return -1;
    if (n == 1 || !choices || !choosable) return c[0];
    uint32_t at = res.alts.size(); res.alts.push_back(n);
    while (devpos < opt.dev.size() && opt.dev[devpos].first < at) ++devpos;
    if (devpos < opt.dev.size() && opt.dev[devpos].first == at) { int a = opt.dev[devpos].second; if (a >= n) { fprintf(stderr, "sched: replay diverged at choice %u\n", at); abort(); } return c[a]; }
    return c[0];
}
void go_to(int t) { if (t == me) return; hand(t); wait_go(me); }
struct Quiet { bool k; Quiet() { k = tracking; tracking = false; } ~Quiet() { tracking = k && inregion; } };
bool controlled() { return inregion && ctx; }
void yield_point() { if (!controlled()) return; int t; { Quiet q; thr[me]->st = Thr::READY; t = pick(true); } Quiet q; go_to(t); thr[me]->st = Thr::READY; }
void dead(const char *what) { fprintf(stderr, "sched: deadlock: no thread can run (%s)\n", what); abort(); }
void lock_(const void *l, bool nest = false) {
    if (!controlled()) return;
    yield_point();
    Quiet q;
    for (;;) {
        Lock &L = (*locks)[l];
        if (L.owner < 0) break;
        if (L.owner == me) { if (nest) { L.depth++; return; } dead("a lock is taken twice"); }
        thr[me]->st = Thr::LOCK; thr[me]->lock = l;
        int t = pick(true);
        if (t < 0) dead("every thread waits for a lock");
        go_to(t);
        thr[me]->st = Thr::READY;
    }
    Lock &L = (*locks)[l]; L.owner = me; L.depth = 1; if (L.has) join(thr[me]->vc, L.vc);
    res.criticals++;
}
bool trylock_(const void *l) { if (!controlled()) return true; yield_point(); Quiet q; Lock &L = (*locks)[l]; if (L.owner >= 0) return false; L.owner = me; L.depth = 1; if (L.has) join(thr[me]->vc, L.vc); return true; }
void unlock_(const void *l) {
    if (!controlled()) return;
    Quiet q; Lock &L = (*locks)[l]; if (L.owner != me) return; if (--L.depth) return;
    L.owner = -1; L.vc = thr[me]->vc; L.has = true; thr[me]->vc.c[me]++;
}
uint32_t bar_gen, bar_cnt; VC bar_vc;
void barrier_() {
    if (!controlled() || ctx->team != team) return;
    { Quiet q; join(bar_vc, thr[me]->vc); }
    if (++bar_cnt == (uint32_t)team->T) {
        Quiet q;
        for (int t = 0; t < team->T; ++t) { join(thr[t]->vc, bar_vc); thr[t]->vc.c[t]++; if (thr[t]->st == Thr::BARRIER) thr[t]->st = Thr::READY; }
        bar_cnt = 0; bar_gen++; memset(&bar_vc, 0, sizeof bar_vc);
        int t = pick(true); go_to(t);
        return;
    }
    Quiet q; thr[me]->st = Thr::BARRIER;
    int t = pick(true); if (t < 0) dead("a barrier is not reached by every thread");
    go_to(t);
}
void run_part(Team *tm, int tid) {
    Ctx c = {tm, tid, 0, ctx}; ctx = &c;
    tm->fn(tm->data);
    ctx = c.up;
}
void body() { tracking = inregion && choices && opt.races; run_part(team, me); tracking = false; }
void *worker(void *a) {
    me = (int)(intptr_t)a; ctx = nullptr;
    for (;;) {
        wait_go(me);
        icv_own = thr[me]->icv;
        body();
        thr[me]->st = Thr::DONE;
        int t = pick(true);
        if (t < 0) {
            for (int i = 1; i < team->T; ++i) if (thr[i]->st != Thr::DONE) dead("a thread never ends");
            if (thr[0]->st != Thr::DONE) dead("a thread never ends");
            t = 0;   // everybody has finished: the master goes on
        }
        hand(t);
    }
    return nullptr;
}
void ensure(int T) {
    if (pool_pid != getpid()) { pool_pid = getpid(); nthr = 1; if (!thr[0]) thr[0] = new Thr(); for (int i = 1; i < MAXT; ++i) thr[i] = nullptr; me = 0; }
    for (; nthr < T; ++nthr) {
        thr[nthr] = new Thr();
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
        if (pthread_create(&thr[nthr]->th, &at, worker, (void *)(intptr_t)nthr)) { fprintf(stderr, "sched: no thread\n"); abort(); }
        pthread_attr_destroy(&at);
    }
}
int icv() { return icv_own ? icv_own : icv0; }
void parallel(void (*fn)(void *), void *data, unsigned n, Loop *first) {
    int T = n ? (int)n : icv();
    if (T > MAXT) T = MAXT;
    if (T < 1) T = 1;
    if (ctx && ctx->team->active) T = 1;       // one level of active parallelism, the default of the specification
    if (!running) T = 1;
    Team tm; tm.T = T; tm.fn = fn; tm.data = data; tm.level = ctx ? ctx->team->level + 1 : 1; tm.active = (T > 1) || (ctx && ctx->team->active); tm.first = first;
    if (first) { tm.loops.push_back(first); }
    if (T == 1) { bool wasin = tracking; (void)wasin; run_part(&tm, 0); for (auto l : tm.loops) delete l; return; }
    ensure(T);
    int region = res.regions++;
    if (T > res.maxteam) res.maxteam = T;
    team = &tm;
    choices = opt.focus < 0 || opt.focus == region;
    if (!table) { table = (Cell *)mmap(0, sizeof(Cell) << SH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pool = new std::vector<uint32_t>; bytes = new std::unordered_map<uintptr_t, Cell>; locks = new std::map<const void *, Lock>; syncs = new SyncMap; }
    if (++epoch == 0) abort();
    used = 0; pool->assign(1, 0); bytes->clear(); locks->clear(); syncs->clear();
    bar_cnt = 0; memset(&bar_vc, 0, sizeof bar_vc);
    int i0 = icv();
    for (int t = 0; t < T; ++t) { Thr *x = thr[t]; x->st = Thr::READY; memset(&x->vc, 0, sizeof x->vc); x->vc.c[t] = 1; x->icv = i0; x->go = 0; }
    inregion = true; cur = 0;
    // who starts
    int save = me; int t0;
    { // the order of the threads' first steps is free: start with the master or with anybody else
        sched::Policy p = opt.policy; opt.policy = sched::RUN_TO_BLOCK; t0 = pick(true); opt.policy = p;
    }
    go_to(t0);
    (void)save;
    body();
    thr[0]->st = Thr::DONE;
    int t = pick(true);
    if (t >= 0) { hand(t); wait_go(0); }
    else for (int i = 0; i < T; ++i) if (thr[i]->st != Thr::DONE) dead("a thread never ends");
    inregion = false; tracking = false; team = nullptr;
    for (auto l : tm.loops) delete l;
}
Loop *enter_loop(long start, long end, long incr, long chunk, int kind) {
    Ctx *c = ctx; Quiet q;
    Team *t = c->team;
    if (t->loops.size() <= c->wsn) { Loop *l = new Loop(); l->next = start; l->end = end; l->incr = incr; l->chunk = chunk > 0 ? chunk : 1; l->kind = kind; t->loops.push_back(l); }
    return t->loops[c->wsn++];
}
bool next_chunk(Loop *l, long *a, long *b) {
    bool ours = controlled() && ctx->team == team;
    if (ours) yield_point();
    Quiet q;
    long left = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
    if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
    if (l->kind == 2) {   // static: the i-th request of a thread gets the chunk that belongs to it
        int T = ctx->team->T; if (l->mine.empty()) l->mine.assign(T, ctx->team->T ? -1 : -1);
        long &m = l->mine[ctx->tid]; m = m < 0 ? ctx->tid : m + T;
        if (m * l->chunk >= left) return false;
        *a = l->next + m * l->chunk * l->incr; *b = l->next + std::min(left, (m + 1) * l->chunk) * l->incr; if (ours) res.iterations++; return true;
    }
    long ch = l->chunk; if (l->kind == 1) ch = std::max(ch, left / std::max(1, ctx->team->T)); if (ch > left) ch = left;
    *a = l->next; *b = l->next + ch * l->incr; l->next = *b;
    if (ours) res.iterations++;
    return true;
}
Loop *my_loop() { return ctx->team->loops[ctx->wsn - 1]; }
}  // namespace

namespace sched {
void begin(const Options &o) { opt = o; res = Result(); devpos = 0; icv0 = o.threads; icv_own = 0; running = true; if (!seen) seen = new std::set<std::pair<const void *, const void *>>; seen->clear(); ensure(1); }
Result end() { running = false; icv0 = 1; icv_own = 0; return res; }
}

// ---------------------------------------------------------------- OpenMP
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
#define PLOOP(name, KIND) EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, unsigned) { Loop *l = new Loop(); l->next = s; l->end = e; l->incr = inc; l->chunk = chunk > 0 ? chunk : 1; l->kind = KIND; parallel(fn, data, n, l); }
PLOOP(dynamic, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_guided, 1) PLOOP(static, 2)
#define PLOOPR(name) EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned) { Loop *l = new Loop(); l->next = s; l->end = e; l->incr = inc; l->chunk = 1; l->kind = 0; parallel(fn, data, n, l); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, kind) EXPORT bool GOMP_loop_##name##_start(long s, long e, long inc, long chunk, long *a, long *b) { return next_chunk(enter_loop(s, e, inc, chunk, kind), a, b); } EXPORT bool GOMP_loop_##name##_next(long *a, long *b) { if (!ctx->wsn) ctx->wsn = 1; return next_chunk(my_loop(), a, b); }
LOOP(dynamic, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_guided, 1) LOOP(static, 2)
#define LOOPR(name) EXPORT bool GOMP_loop_##name##_start(long s, long e, long inc, long *a, long *b) { return next_chunk(enter_loop(s, e, inc, 1, 0), a, b); } EXPORT bool GOMP_loop_##name##_next(long *a, long *b) { if (!ctx->wsn) ctx->wsn = 1; return next_chunk(my_loop(), a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPU(name, kind) EXPORT bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long inc, unsigned long chunk, unsigned long *a, unsigned long *b) { (void)up; return next_chunk(enter_loop(s, e, (long)inc, chunk, kind), (long *)a, (long *)b); } EXPORT bool GOMP_loop_ull_##name##_next(unsigned long *a, unsigned long *b) { return next_chunk(my_loop(), (long *)a, (long *)b); }
LOOPU(dynamic, 0) LOOPU(nonmonotonic_dynamic, 0) LOOPU(guided, 1) LOOPU(nonmonotonic_guided, 1)
EXPORT void GOMP_loop_end_nowait() {}
EXPORT void GOMP_loop_end() { barrier_(); }
EXPORT void GOMP_barrier() { barrier_(); }
EXPORT void GOMP_critical_start() { lock_(&crit_default); }
EXPORT void GOMP_critical_end() { unlock_(&crit_default); }
EXPORT void GOMP_critical_name_start(void **p) { lock_(p); }
EXPORT void GOMP_critical_name_end(void **p) { unlock_(p); }
EXPORT void GOMP_atomic_start() { lock_(&crit_default + 0); }
EXPORT void GOMP_atomic_end() { unlock_(&crit_default + 0); }
EXPORT bool GOMP_single_start() { Ctx *c = ctx; if (!c) return true; Quiet q; Team *t = c->team; unsigned k = c->wsn++; while (t->loops.size() <= k) t->loops.push_back(new Loop()); Loop *l = t->loops[k]; if (l->kind == 9) return false; l->kind = 9; return true; }
EXPORT unsigned GOMP_sections_start(unsigned n) { long a, b; return next_chunk(enter_loop(1, (long)n + 1, 1, 1, 0), &a, &b) ? a : 0; }
EXPORT unsigned GOMP_sections_next() { long a, b; if (!ctx->wsn) ctx->wsn = 1; return next_chunk(my_loop(), &a, &b) ? a : 0; }
EXPORT void GOMP_sections_end() { barrier_(); }
EXPORT void GOMP_sections_end_nowait() {}
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) { Loop *l = new Loop(); l->next = 1; l->end = (long)count + 1; l->incr = 1; l->chunk = 1; l->kind = 0; parallel(fn, data, n, l); }
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) { if (!cpy) { fn(data); return; } char *b = (char *)malloc(size + align); char *p = (char *)(((uintptr_t)b + align - 1) / align * align); cpy(p, data); fn(p); free(b); }
EXPORT void GOMP_taskwait() {}
EXPORT void GOMP_taskyield() {}
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}
EXPORT void GOMP_ordered_start() { fprintf(stderr, "sched: ordered is not supported\n"); abort(); }
EXPORT int omp_get_max_threads() { return running ? icv() : 1; }
EXPORT int omp_get_num_threads() { return ctx ? ctx->team->T : 1; }
EXPORT int omp_get_thread_num() { return ctx ? ctx->tid : 0; }
EXPORT void omp_set_num_threads(int n) { if (n < 1) n = 1; if (ctx || me) icv_own = n; else icv0 = n; }
EXPORT int omp_in_parallel() { return ctx && ctx->team->active; }
EXPORT int omp_get_num_procs() { return 8; }
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT int omp_get_level() { return ctx ? ctx->team->level : 0; }
EXPORT int omp_get_active_level() { return omp_in_parallel(); }
EXPORT int omp_get_thread_limit() { return MAXT; }
EXPORT double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT void omp_init_lock(void *) {}
EXPORT void omp_destroy_lock(void *) {}
EXPORT void omp_set_lock(void *l) { lock_(l); }
EXPORT void omp_unset_lock(void *l) { unlock_(l); }
EXPORT int omp_test_lock(void *l) { return trylock_(l); }
EXPORT void omp_init_nest_lock(void *) {}
EXPORT void omp_destroy_nest_lock(void *) {}
EXPORT void omp_set_nest_lock(void *l) { lock_(l, true); }
EXPORT void omp_unset_nest_lock(void *l) { unlock_(l); }

// ---------------------------------------------------------------- memory accesses of the instrumented library
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_read(void **p) { if (watch()) touch(p, 8, false, PC); }
EXPORT void __tsan_vptr_update(void **p, void *v) { if (watch() && *p != v) touch(p, 8, true, PC); }
#define RW(n) \
    EXPORT void __tsan_read##n(void *p) { if (watch()) touch(p, n, false, PC); } \
    EXPORT void __tsan_write##n(void *p) { if (watch()) touch(p, n, true, PC); } \
    EXPORT void __tsan_unaligned_read##n(void *p) { if (watch()) touch(p, n, false, PC); } \
    EXPORT void __tsan_unaligned_write##n(void *p) { if (watch()) touch(p, n, true, PC); } \
    EXPORT void __tsan_volatile_read##n(void *p) { if (watch()) touch(p, n, false, PC); } \
    EXPORT void __tsan_volatile_write##n(void *p) { if (watch()) touch(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { if (watch()) touch(p, n, false, PC); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { if (watch()) touch(p, n, true, PC); }
// atomics synchronise through their address
#define ATOMIC(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int) { T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); acquire((const void *)a); return v; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int) { release((const void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acquire((const void *)a); release((const void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acquire((const void *)a); release((const void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acquire((const void *)a); release((const void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acquire((const void *)a); release((const void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acquire((const void *)a); release((const void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acquire((const void *)a); release((const void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acquire((const void *)a); release((const void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acquire((const void *)a); release((const void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acquire((const void *)a); release((const void *)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- the allocator
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
EXPORT void *malloc(size_t n) { void *p = __libc_malloc(n); if (tracking) fresh(p, n); return p; }
EXPORT void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (tracking) fresh(p, a * b); return p; }
EXPORT void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (tracking && p != q) fresh(p, n); return p; }
EXPORT void free(void *p) { __libc_free(p); }
EXPORT void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (tracking) fresh(p, n); return p; }
EXPORT void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXPORT int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }

// ---------------------------------------------------------------- calls that leave the instrumented code (--wrap)
struct _ntl_gbigint_body;
typedef _ntl_gbigint_body *big;
namespace {
inline void rd(const void *p, size_t n, const void *pc) { if (p) touch(p, n, false, pc); }
inline void wr(void *p, size_t n, const void *pc) { if (p) touch(p, n, true, pc); }
}
#include "sched_wrap.inc"
EXPORT void *__real_memcpy(void *, const void *, size_t); EXPORT void *__real_memmove(void *, const void *, size_t); EXPORT void *__real_memset(void *, int, size_t);
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) { if (watch()) { touch(s, n, false, PC); touch(d, n, true, PC); } return __real_memcpy(d, s, n); }
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) { if (watch()) { touch(s, n, false, PC); touch(d, n, true, PC); } return __real_memmove(d, s, n); }
EXPORT void *__wrap_memset(void *d, int c, size_t n) { if (watch()) touch(d, n, true, PC); return __real_memset(d, c, n); }
// the nodes of std::map
#define INS _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define ERA _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
struct Node { int color; Node *parent, *left, *right; };
EXPORT void CAT(__real_, INS)(bool, Node *, Node *, Node &); EXPORT Node *CAT(__real_, ERA)(Node *, Node &);
EXPORT void CAT(__wrap_, INS)(bool l, Node *x, Node *p, Node &h) { if (watch()) { wr(l || p == &h ? &p->left : &p->right, 8, PC); wr(&h.parent, 8, PC); } CAT(__real_, INS)(l, x, p, h); }
EXPORT Node *CAT(__wrap_, ERA)(Node *z, Node &h) { if (watch()) { wr(&z->parent, 24, PC); wr(&h.parent, 8, PC); } return CAT(__real_, ERA)(z, h); }
// initialisation of static locals, mutexes
EXPORT int __real___cxa_guard_acquire(uint64_t *); EXPORT void __real___cxa_guard_release(uint64_t *);
EXPORT int __wrap___cxa_guard_acquire(uint64_t *g) { acquire(g); return __real___cxa_guard_acquire(g); }
EXPORT void __wrap___cxa_guard_release(uint64_t *g) { release(g); __real___cxa_guard_release(g); }
EXPORT int __real_pthread_mutex_lock(pthread_mutex_t *); EXPORT int __real_pthread_mutex_unlock(pthread_mutex_t *); EXPORT int __real_pthread_mutex_trylock(pthread_mutex_t *);
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (controlled()) lock_(m); return __real_pthread_mutex_lock(m); }
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (controlled() && !trylock_(m)) return EBUSY; return __real_pthread_mutex_trylock(m); }
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (controlled()) unlock_(m); return r; }
