#include "sched.hpp"
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <vector>
#include <csignal>
#include <cerrno>

namespace {

constexpr int max_threads = 12;

struct VC {
    std::uint32_t c[max_threads] = {};
    void join(const VC& o) { for (int i = 0; i < max_threads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum class St { runnable, lock, join, guard, done };

struct Thr {
    St st = St::runnable;
    void* wait = nullptr;   // mutex or guard waited for
    int wait_thr = -1;      // thread waited for
    bool joined = false, detached = false;
    pthread_t handle = {};
    sem_t sem;
    VC vc;
    int ignore = 0;
};

struct Mtx { int owner = -1; int count = 0; VC vc; };

struct State {
    mc::Ctx* x;
    int n = 0;        // number of threads so far
    int running = 0;
    int live = 0, max_live = 0;
    std::uint64_t switches = 0;
    Thr t[max_threads];
    std::unordered_map<void*, Mtx> mtx;
    std::unordered_map<void*, VC> sync;
    std::unordered_map<void*, int> guards; // in progress by thread
};
State* S = nullptr;
thread_local int me = -1;
thread_local int busy = 0; // inside scheduler

// ---- shadow memory ----
struct Entry { std::uint32_t clk; std::uint8_t tid, mask, kind; void* pc; }; // kind: 1 write, 2 atomic
struct Cell { std::uintptr_t key; std::uint32_t epoch; int n; Entry e[6]; };
constexpr std::size_t num_cells = 1 << 18;
Cell* cells = nullptr;
std::uint32_t epoch = 1;
bool recording = false;

[[noreturn]] void fail(const std::string& s) { ++busy; S->x->fail(s); }

std::string sym(void* pc)
{
    Dl_info i;
    char b[256];
    std::string r;
    if (dladdr(pc, &i) && i.dli_fname) {
        std::snprintf(b, sizeof b, "addr2line -Cfpe '%s' 0x%zx 2>/dev/null", i.dli_fname, std::size_t((char*)pc - (char*)i.dli_fbase) - 1);
        if (FILE* f = popen(b, "r")) { while (std::fgets(b, sizeof b, f)) r += b; pclose(f); }
        while (!r.empty() && r.back() == '\n') r.pop_back();
    }
    return r.empty() ? "?" : r;
}

Cell* find(std::uintptr_t key, bool create)
{
    std::size_t h = (key * 0x9E3779B97F4A7C15ull) >> 46;
    for (std::size_t k = 0; k < 64; ++k) {
        Cell& c = cells[(h + k) & (num_cells - 1)];
        if (c.epoch != epoch) { if (!create) return nullptr; c.epoch = epoch; c.key = key; c.n = 0; return &c; }
        if (c.key == key) return &c;
    }
    return nullptr; // table too full: access not recorded
}

void access8(std::uintptr_t key, std::uint8_t mask, std::uint8_t kind, void* pc)
{
    Cell* c = find(key, true);
    if (!c) return;
    Thr& t = S->t[me];
    int slot = -1;
    for (int i = 0; i < c->n; ++i) {
        Entry& e = c->e[i];
        if (e.tid == me) { if (e.mask == mask && (e.kind & 3) == kind) slot = i; continue; }
        if (!(e.mask & mask)) continue;
        if (!((e.kind | kind) & 1)) continue;         // both reads
        if ((e.kind & 2) && (kind & 2)) continue;     // both atomic
        if (e.clk > t.vc.c[e.tid]) {
            ++busy;
            fail(mc::str("data race between thread ", me, " (", kind & 1 ? "write" : "read", ") at ", sym(pc), " and thread ", int(e.tid), " (", e.kind & 1 ? "write" : "read", ") at ", sym(e.pc)));
        }
    }
    if (slot < 0) {
        if (c->n < 6) slot = c->n++;
        else { for (int i = 1; i < 6; ++i) c->e[i - 1] = c->e[i]; slot = 5; }
    }
    c->e[slot] = { t.vc.c[me], std::uint8_t(me), mask, kind, pc };
}

inline void access(void* p, std::size_t n, std::uint8_t kind, void* pc)
{
    if (!recording || me < 0 || busy || S->t[me].ignore) return;
    ++busy;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    while (n > 0) {
        std::size_t off = a & 7, k = std::min<std::size_t>(8 - off, n);
        access8(a >> 3, std::uint8_t(((1u << k) - 1) << off), kind, pc);
        a += k;
        n -= k;
    }
    --busy;
}
void clear_range(void* p, std::size_t n)
{
    if (!recording || n > (std::size_t(1) << 20)) return;
    auto a = reinterpret_cast<std::uintptr_t>(p) >> 3, b = (reinterpret_cast<std::uintptr_t>(p) + n + 7) >> 3;
    for (; a < b; ++a) if (Cell* c = find(a, false)) c->n = 0;
}

// ---- scheduling ----
bool enabled(int i)
{
    Thr& t = S->t[i];
    switch (t.st) {
        case St::runnable: return true;
        case St::lock: { auto m = S->mtx.find(t.wait); return m == S->mtx.end() || m->second.owner < 0; }
        case St::join: return S->t[t.wait_thr].st == St::done;
        case St::guard: return S->guards.find(t.wait) == S->guards.end();
        case St::done: return false;
    }
    return false;
}
void deadlock()
{
    std::string s = "deadlock:";
    for (int i = 0; i < S->n; ++i)
        if (S->t[i].st != St::done) s += mc::str(" thread ", i, S->t[i].st == St::lock ? " waits for mutex" : S->t[i].st == St::join ? " waits for thread " : " waits", S->t[i].st == St::join ? mc::str(S->t[i].wait_thr) : "");
    fail(s);
}
// Choose next thread to run. `self_ok`: current thread could continue
void reschedule(bool ending)
{
    int cand[max_threads], n = 0;
    bool self_ok = !ending && enabled(me);
    if (self_ok) cand[n++] = me;
    for (int i = 0; i < S->n; ++i) if (i != me && enabled(i)) cand[n++] = i;
    if (n == 0) {
        if (ending) { bool live = false; for (int i = 0; i < S->n; ++i) live |= S->t[i].st != St::done; if (!live) return; }
        deadlock();
    }
    int k = n == 1 ? 0 : self_ok ? S->x->deviate(n) : S->x->choose(n);
    int to = cand[k];
    if (to == me) return;
    ++S->switches;
    if (S->x->tracing) S->x->trace << "T" << me << "->T" << to << " ";
    S->running = to;
    int self = me;
    sem_post(&S->t[to].sem);
    if (!ending) while (sem_wait(&S->t[self].sem) != 0) {}
}
void sched_point()
{
    if (!S || me < 0 || busy || S->t[me].ignore) return;
    ++busy;
    mc::heartbeat();
    if (S->live > 1) reschedule(false);
    --busy;
}
void tick() { ++S->t[me].vc.c[me]; }

template<class F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

struct Start { void* (*f)(void*); void* arg; int id; };
void* trampoline(void* p)
{
    Start s = *static_cast<Start*>(p);
    ++busy;
    delete static_cast<Start*>(p);
    while (sem_wait(&S->t[s.id].sem) != 0) {}
    me = s.id;
    {
        pthread_attr_t a; void* st; std::size_t sz;
        pthread_getattr_np(pthread_self(), &a);
        pthread_attr_getstack(&a, &st, &sz);
        pthread_attr_destroy(&a);
        // Stack of terminated thread may have been reused: only upper part is likely to be used
        std::size_t used = std::min<std::size_t>(sz, 128 * 1024);
        clear_range((char*)st + sz - used, used);
    }
    --busy;
    void* r = s.f(s.arg);
    ++busy;
    tick();
    S->t[me].st = St::done;
    --S->live;
    reschedule(true);
    me = -1;
    return r;
}

// The memory orders of the __tsan_atomic interface
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

struct AtomicOp {
    bool on;
    void* p;
    AtomicOp(volatile void* q, std::size_t n, int kind, void* pc)
    {
        p = const_cast<void*>(q);
        sched_point();
        on = S && me >= 0 && !busy && !S->t[me].ignore;
        if (on) access(p, n, std::uint8_t(2 | kind), pc);
    }
    void load(int mo) { if (on && acq(mo)) { ++busy; auto i = S->sync.find(p); if (i != S->sync.end()) S->t[me].vc.join(i->second); --busy; } }
    void store(int mo) { if (on) { ++busy; if (rel(mo)) { S->sync[p] = S->t[me].vc; tick(); } else S->sync.erase(p); --busy; } }
    void rmw(int mo) { if (on) { load(mo); ++busy; if (rel(mo)) { S->sync[p].join(S->t[me].vc); tick(); } --busy; } }
};
} // namespace

namespace sched {
int (*create_hook)() = nullptr;
Session::Session(mc::Ctx& x)
{
    S = new State();
    S->x = &x;
    S->n = 1;
    S->live = S->max_live = 1;
    sem_init(&S->t[0].sem, 0, 0);
    S->t[0].vc.c[0] = 1;
    me = 0;
    if (!cells) cells = static_cast<Cell*>(std::calloc(num_cells, sizeof(Cell)));
    ++epoch;
    recording = false;
}
Session::~Session()
{
    for (int i = 1; i < S->n; ++i)
        if (S->t[i].st != St::done || !(S->t[i].joined || S->t[i].detached)) fail(mc::str("thread ", i, " was not joined"));
    recording = false;
    me = -1;
    State* s = S;
    S = nullptr;
    delete s;
}
Ignore::Ignore() noexcept { if (S && me >= 0) ++S->t[me].ignore; }
Ignore::~Ignore() noexcept { if (S && me >= 0) --S->t[me].ignore; }
int self() noexcept { return me; }
void point() noexcept { sched_point(); }
bool holds_any_lock() noexcept { for (auto& m : S->mtx) if (m.second.owner == me) return true; return false; }
std::uint64_t switches() noexcept { return S->switches; }
int max_live() noexcept { return S->max_live; }
} // namespace sched

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!S || me < 0 || busy) return r(th, at, f, arg);
    ++busy;
    if (sched::create_hook) if (int e = sched::create_hook()) { --busy; return e; }
    if (S->n == max_threads) fail("too many threads");
    int id = S->n++;
    Thr& t = S->t[id];
    sem_init(&t.sem, 0, 0);
    if (S->live == 1) { ++epoch; recording = true; } // everything so far happens before
    t.vc = S->t[me].vc;
    t.vc.c[id] = 1;
    tick();
    ++S->live;
    if (S->live > S->max_live) S->max_live = S->live;
    int e = r(th, at, trampoline, new Start { f, arg, id });
    if (e != 0) fail("pthread_create failed");
    t.handle = *th;
    --busy;
    sched_point();
    return 0;
}
int pthread_join(pthread_t th, void** res)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!S || me < 0 || busy) return r(th, res);
    int id = -1;
    for (int i = 1; i < S->n; ++i) if (S->t[i].handle == th && !S->t[i].joined) id = i;
    if (id < 0) return r(th, res);
    sched_point();
    ++busy;
    if (S->t[id].st != St::done) {
        S->t[me].st = St::join;
        S->t[me].wait_thr = id;
        reschedule(false);
        S->t[me].st = St::runnable;
    }
    S->t[id].joined = true;
    S->t[me].vc.join(S->t[id].vc);
    int e = r(th, res);
    if (S->live == 1) { ++epoch; recording = false; }
    --busy;
    return e;
}
int pthread_detach(pthread_t th)
{
    static auto r = real<int (*)(pthread_t)>("pthread_detach");
    if (S && me >= 0 && !busy) for (int i = 1; i < S->n; ++i) if (S->t[i].handle == th) S->t[i].detached = true;
    return r(th);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!S || me < 0 || busy || S->t[me].ignore) return r(m);
    sched_point();
    ++busy;
    Mtx& x = S->mtx[m];
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (x.owner == me && !recursive) fail(mc::str("thread ", me, " locks mutex that it already holds"));
    if (x.owner >= 0 && x.owner != me) {
        S->t[me].st = St::lock;
        S->t[me].wait = m;
        reschedule(false);
        S->t[me].st = St::runnable;
    }
    Mtx& y = S->mtx[m];
    if (y.owner >= 0 && y.owner != me) fail("internal: mutex taken");
    y.owner = me;
    ++y.count;
    S->t[me].vc.join(y.vc);
    r(m);
    --busy;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!S || me < 0 || busy || S->t[me].ignore) return r(m);
    sched_point();
    ++busy;
    Mtx& x = S->mtx[m];
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    int e = EBUSY;
    if (x.owner < 0 || (x.owner == me && recursive)) {
        x.owner = me;
        ++x.count;
        S->t[me].vc.join(x.vc);
        e = r(m);
    }
    --busy;
    return e;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!S || me < 0 || busy || S->t[me].ignore) return r(m);
    ++busy;
    Mtx& x = S->mtx[m];
    if (x.owner != me) fail(mc::str("thread ", me, " unlocks mutex that it does not hold"));
    if (--x.count == 0) {
        x.owner = -1;
        x.vc = S->t[me].vc;
        tick();
    }
    int e = r(m);
    --busy;
    return e;
}

// Function-local statics
int __cxa_guard_acquire(long long* g)
{
    char* b = reinterpret_cast<char*>(g);
    if (!S || me < 0 || busy) { return *b == 0; }
    sched_point();
    ++busy;
    while (*b == 0 && S->guards.count(g)) {
        if (S->guards[g] == me) fail("recursive initialization of static");
        S->t[me].st = St::guard;
        S->t[me].wait = g;
        reschedule(false);
        S->t[me].st = St::runnable;
    }
    int r = *b == 0;
    if (r) S->guards[g] = me;
    else { auto i = S->sync.find(g); if (i != S->sync.end()) S->t[me].vc.join(i->second); }
    --busy;
    return r;
}
void __cxa_guard_release(long long* g) noexcept
{
    if (S && me >= 0 && !busy) { ++busy; S->guards.erase(g); S->sync[g] = S->t[me].vc; tick(); --busy; }
    __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long* g) noexcept { if (S && me >= 0 && !busy) { ++busy; S->guards.erase(g); --busy; } }

void __libc_free(void*);
void free(void* p)
{
    if (p && recording && me >= 0 && !busy) { ++busy; clear_range(p, malloc_usable_size(p)); --busy; }
    __libc_free(p);
}

// Interface of -fsanitize=thread
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }
void __tsan_read_range(void* p, std::size_t n) { access(p, n, 0, PC); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, 1, PC); }
#define RW(n)                                                        \
    void __tsan_read##n(void* p) { access(p, n, 0, PC); }            \
    void __tsan_write##n(void* p) { access(p, n, 1, PC); }           \
    void __tsan_unaligned_read##n(void* p) { access(p, n, 0, PC); }  \
    void __tsan_unaligned_write##n(void* p) { access(p, n, 1, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, 0, PC); }   \
    void __tsan_volatile_write##n(void* p) { access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

#define ATOMIC(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { AtomicOp o((volatile void*)p, sizeof(T), 0, PC); T v = __atomic_load_n(p, 5); o.load(mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.store(mo); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { AtomicOp o(p, sizeof(T), 1, PC); o.rmw(mo); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { AtomicOp o(p, sizeof(T), 1, PC); bool k = __atomic_compare_exchange_n(p, e, v, false, 5, 5); if (k) o.rmw(mo); else o.load(fmo); return k; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { AtomicOp o(p, sizeof(T), 1, PC); bool k = __atomic_compare_exchange_n(p, e, v, false, 5, 5); if (k) o.rmw(mo); else o.load(fmo); return k; }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t) ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
