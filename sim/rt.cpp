// dsim runtime: implements the compiler's thread-sanitizer ABI, the pthread/futex/clock/random/allocation seam,
// a seeded scheduler, a C++20 weak memory model and a happens-before race detector.  Compiled WITHOUT
// instrumentation.  Exactly one simulated thread runs at any time (baton passing), so runtime state is plain.
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <csetjmp>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start[], _end[];

namespace sim {
const char* const kind_name[K_N] = { "switch", "stale-load", "alloc-fail", "throw", "spurious-wake", "time-jump",
    "weak-cas-fail", "thread-start-fail", "stall", "wake-order" };
std::vector<Property>& properties() {
    static std::vector<Property> v;
    return v;
}
} // namespace sim

namespace rt {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using uptr = uintptr_t;
using sim::K_N;

Shared* shared;

// the runtime's own containers must not use the simulated heap
template<typename T>
struct RA {
    using value_type = T;
    RA() = default;
    template<typename U> RA(const RA<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    bool operator==(const RA&) const { return true; }
};
template<typename T> using vec = std::vector<T, RA<T>>;
template<typename K, typename V> using umap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, RA<std::pair<const K, V>>>;
template<typename T, typename... A> static T* mk(A&&... a) { return new (calloc(1, sizeof(T))) T(std::forward<A>(a)...); }

// ---------------------------------------------------------------------------------------------- raw syscalls
static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

// ---------------------------------------------------------------------------------------------- address space
constexpr uptr HEAP = 0x100000000000ull;
constexpr uptr HEAP_SZ = 1ull << 29;  // small blocks (bump, never reused)
constexpr uptr BIG = HEAP + HEAP_SZ;
constexpr uptr BIG_SZ = 3ull << 29;   // large blocks
constexpr uptr STK = BIG + BIG_SZ;
constexpr int NT = 64;
constexpr uptr STK_ONE = 2ull << 20;
constexpr uptr STK_SZ = NT * STK_ONE;
constexpr uptr TRACK_SZ = HEAP_SZ + BIG_SZ + STK_SZ;
constexpr uptr SHADOW = 0x200000000000ull; // 32 bytes per 8
constexpr uptr POISON = 0x300000000000ull; // 1 byte per 8 (small heap only)
constexpr uptr FLAGS = 0x310000000000ull;  // 1 byte per 8: bit0 = an atomic location lives here
static uptr g_base, g_size; // executable's data segment

struct Cell {
    u64 r[4];
};
static inline Cell* cells() { return (Cell*)SHADOW; }
static inline u8* poison() { return (u8*)POISON; }
static inline u8* flags() { return (u8*)FLAGS; }

// ---------------------------------------------------------------------------------------------- clocks
struct Clock {
    u32 v[NT];
    int scf;
};
static int nthr; // simulated threads ever created in this run
static inline void join(Clock& a, const Clock& b) {
    for (int i = 0; i < nthr; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i];
    if (b.scf > a.scf) a.scf = b.scf;
}
static char* bump_p;
static size_t bump_left;
static void* bump(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (bump_left < n) {
        bump_left = n > (4u << 20) ? n : (4u << 20);
        bump_p = (char*)mmap(nullptr, bump_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (bump_p == MAP_FAILED) { _exit(77); }
    }
    void* r = bump_p;
    bump_p += n;
    bump_left -= n;
    return r;
}
static Clock* clone(const Clock& c) {
    auto* r = (Clock*)bump(sizeof(Clock));
    memcpy(r->v, c.v, sizeof(u32) * NT);
    r->scf = c.scf;
    return r;
}

// ---------------------------------------------------------------------------------------------- threads
enum State { RUN, BLOCK, DONE };
struct TlsDtor { void (*f)(void*); void* o; };
struct Thr {
    int id;
    State st;
    const char* what; // what it is blocked on
    const void* obj;
    u64 deadline; // ~0 = none
    bool timed_out;
    u32 bitset;
    Clock clk, rel, acq; // rel: clock at last release fence, acq: pending acquire
    bool has_rel, has_acq;
    int quiet;
    unsigned allow;
    u32 cnt[K_N];
    u32 rnd_cnt;
    int stale_streak;
    int prio;
    u64 stall_until;
    int baton;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool joined, detached;
    int joiner;
    vec<TlsDtor>* dtors;
    int depth;
    uptr stack[1024];
    u64 mem_accesses;
};
static Thr* thr[NT];
static __thread Thr* cur __attribute__((tls_model("initial-exec")));
static bool active;
static Cfg cfg;
static u64 g_steps, g_seq, g_now, g_access, g_switch, g_atomics;
static bool settled;
static u64 settle_limit;
static u32 streak;
static unsigned hw_threads = 4;
static bool multi; // more than one thread ever
static bool norace;
static int last_run;

// run PRNG
static u64 prng_s;
static inline u64 mix64(u64 z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline u64 rnd() { return mix64(prng_s += 0x9e3779b97f4a7c15ull); }
static inline u32 rnd_n(u32 n) { return n ? (u32)((rnd() >> 16) % n) : 0; }
static inline bool chance(u32 p65536) { return p65536 && (rnd() & 0xffff) < p65536; }

static inline void hmix(u64& h, u64 v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }

static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char* fmt, ...) {
    if (!cfg.trace) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    if (shared->ntrace + n < TRACEBYTES) {
        memcpy(shared->trace + shared->ntrace, buf, n);
        shared->ntrace += n;
    }
}

static void publish() {
    shared->steps = g_steps;
    shared->accesses = g_access;
    shared->switches = g_switch;
    shared->simns = g_now;
    shared->threads = nthr;
    shared->atomics = g_atomics;
}

[[noreturn]] static void die(int status, const char* cls, const char* fmt, va_list ap) {
    if (shared->status == 0) {
        shared->status = status;
        snprintf(shared->cls, sizeof shared->cls, "%s", cls);
        vsnprintf(shared->msg, sizeof shared->msg, fmt, ap);
        for (char* p = shared->msg; *p; p++) if (*p == '\n') *p = ' ';
        if (cur) {
            int d = cur->depth;
            int n = 0;
            void* here[24];
            (void)here;
            for (int i = d - 1; i >= 0 && n < 40; i--)
                if (i < 1024) shared->bt[n++] = cur->stack[i];
            shared->nbt = n;
        }
        hmix(shared->hash, 0xdead);
        publish();
        tracef("[%llu] T%d VIOLATION %s: %s", (unsigned long long)g_seq, cur ? cur->id : -1, shared->cls, shared->msg);
    }
    _exit(status == 1 ? 0 : 3);
}
[[noreturn]] static void violation(const char* cls, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    die(2, cls, fmt, ap);
}
[[noreturn]] static void internal_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    die(3, "internal", fmt, ap);
}

static const sim::Scenario* g_sc;
static void (*hang_fn)(void*);
static void* hang_arg;
[[noreturn]] static void hang(const char* cls, const char* fmt, ...) {
    if (cur) cur->quiet++;
    if (hang_fn) hang_fn(hang_arg);
    if (g_sc->flags & sim::HANG_OK) {
        snprintf(shared->cls, sizeof shared->cls, "inconclusive");
        shared->inconclusive = 1;
        publish();
        shared->status = 1;
        _exit(0);
    }
    va_list ap;
    va_start(ap, fmt);
    die(2, cls, fmt, ap);
}

// ---------------------------------------------------------------------------------------------- decisions
static umap<u64, int32_t>* rmap;
static inline u64 rkey(int kind, int tid, u32 n) { return ((u64)kind << 56) | ((u64)tid << 40) | n; }

static void record(int kind, u32 n, int val) {
    shared->fired[kind]++;
    if (shared->ndec < MAXDEC) {
        shared->dec[shared->ndec++] = Dec{ (u8)kind, (u8)cur->id, 0, n, val, (u32)g_seq };
    } else shared->dec_overflow++;
    hmix(shared->hash, rkey(kind, cur->id, n) + val);
}
static int replayed(int kind, u32 n, int dflt, bool& found) {
    auto it = rmap->find(rkey(kind, cur->id, n));
    found = it != rmap->end();
    return found ? it->second : dflt;
}
// binary decision with rate
static bool decide_bool(int kind, u32 rate) {
    u32 n = cur->cnt[kind]++;
    if (settled) return false;
    bool r;
    if (cfg.replay) {
        bool f;
        r = replayed(kind, n, 0, f) != 0;
    } else r = chance(rate);
    if (r) record(kind, n, 1);
    return r;
}

// ---------------------------------------------------------------------------------------------- baton
static void baton_wait(Thr* t) {
    while (!__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE))
        raw_syscall6(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void baton_give(Thr* t) {
    __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
    raw_syscall6(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void switch_to(Thr* to) {
    Thr* me = cur;
    g_switch++;
    streak = 0;
    hmix(shared->ihash, 0x5357ull + to->id * 131 + me->id);
    if (cfg.trace) tracef("[%llu] switch T%d -> T%d", (unsigned long long)g_seq, me->id, to->id);
    last_run = to->id;
    baton_give(to);
    if (me->st != DONE) baton_wait(me);
}

static void enter_settle(u64 budget) {
    settled = true;
    settle_limit = g_steps + budget;
    for (int i = 0; i < nthr; i++) thr[i]->stall_until = 0;
}
static void step() {
    g_steps++;
    g_seq++;
    g_now += 50;
    if (!settled) {
        if (g_steps > cfg.max_steps) {
            tracef("[%llu] step budget used up: faults stop", (unsigned long long)g_seq);
            enter_settle(3000000);
        }
    } else if (g_steps > settle_limit) {
        char w[512];
        int n = 0;
        for (int i = 0; i < nthr && n < 400; i++)
            n += snprintf(w + n, sizeof w - n, " T%d:%s", i, thr[i]->st == DONE ? "done" : thr[i]->st == RUN ? "running" : thr[i]->what);
        hang("livelock", "no completion within the step budget after faults stopped;%s", w);
    }
}
static bool wake_timed_out(bool force) {
    Thr* best = nullptr;
    for (int i = 0; i < nthr; i++)
        if (thr[i]->st == BLOCK && thr[i]->deadline != ~0ull && (!best || thr[i]->deadline < best->deadline)) best = thr[i];
    if (!best) return false;
    if (best->deadline > g_now) {
        if (!force) return false;
        g_now = best->deadline;
    }
    best->st = RUN;
    best->timed_out = true;
    return true;
}
static int runnable(Thr** out) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (thr[i]->st == RUN && thr[i]->stall_until <= g_steps) out[n++] = thr[i];
    if (!n)
        for (int i = 0; i < nthr; i++)
            if (thr[i]->st == RUN) out[n++] = thr[i];
    return n;
}
static Thr* next_cyclic(Thr** r, int n, int id) {
    for (int i = 0; i < n; i++)
        if (r[i]->id > id) return r[i];
    return r[0];
}
// PCT
static int pct_low;
static vec<u32>* pct_points;
static u32 pct_streak;
static Thr* choose_switch(Thr** r, int n, Thr* me, Thr* dflt) {
    if (cfg.strategy == 1) {
        while (!pct_points->empty() && pct_points->back() <= g_steps) {
            pct_points->pop_back();
            me->prio = --pct_low;
        }
        if (++pct_streak > 400) {
            me->prio = --pct_low;
            pct_streak = 0;
        }
        Thr* best = r[0];
        for (int i = 1; i < n; i++) if (r[i]->prio > best->prio) best = r[i];
        if (best != me) pct_streak = 0;
        return best;
    }
    if (cfg.strategy == 0 && n > 1 && chance(cfg.p_switch)) {
        return r[rnd_n(n)];
    }
    return dflt;
}
static Thr* pick(Thr* me, bool can_continue, bool yield) {
    Thr* r[NT];
    int n = runnable(r);
    while (!n) {
        if (!wake_timed_out(true)) {
            char w[1024];
            int k = 0;
            for (int i = 0; i < nthr && k < 900; i++)
                k += snprintf(w + k, sizeof w - k, " T%d:%s", i, thr[i]->st == DONE ? "done" : thr[i]->what);
            hang("deadlock", "no thread can run:%s", w);
        }
        n = runnable(r);
    }
    bool me_in = false;
    for (int i = 0; i < n; i++) me_in |= r[i] == me;
    Thr* dflt;
    u32 rot = settled ? 24 : cfg.rotate;
    if (can_continue && me_in && !yield && streak < rot) dflt = me;
    else dflt = next_cyclic(r, n, me->id);
    streak++;
    u32 k = me->cnt[sim::K_SWITCH]++;
    Thr* t = dflt;
    if (!settled && n > 1) {
        if (cfg.replay) {
            bool f;
            int v = replayed(sim::K_SWITCH, k, -1, f);
            if (f)
                for (int i = 0; i < n; i++) if (r[i]->id == v) t = r[i];
        } else t = choose_switch(r, n, me, dflt);
        if (t != dflt) record(sim::K_SWITCH, k, t->id);
    }
    if (t == me && dflt != me) streak = 0;
    return t;
}

static inline bool simulated() { return cur && !cur->quiet; }

static void sched_point(int opkind, bool yield = false) {
    Thr* me = cur;
    step();
    hmix(shared->ihash, (u64)opkind * 64 + me->id);
    if (nthr > 1) {
        if (!settled) {
            bool timed = false;
            for (int i = 0; i < nthr; i++) timed |= thr[i]->st == BLOCK && thr[i]->deadline != ~0ull;
            wake_timed_out(false);
            if (timed && decide_bool(sim::K_TIME, cfg.rate[sim::K_TIME])) wake_timed_out(true);
            // stall
            u32 n = me->cnt[sim::K_STALL]++;
            int dur = 0;
            if (cfg.replay) {
                bool f;
                dur = replayed(sim::K_STALL, n, 0, f);
            } else if (chance(cfg.rate[sim::K_STALL])) dur = 100 << rnd_n(6);
            if (dur > 0) {
                record(sim::K_STALL, n, dur);
                me->stall_until = g_steps + dur;
                tracef("[%llu] T%d stalls for %d steps", (unsigned long long)g_seq, me->id, dur);
            }
        } else wake_timed_out(false);
        Thr* t = pick(me, true, yield);
        if (t != me) switch_to(t);
    }
}
// blocks the current thread until unblock() or deadline; returns true when timed out
static bool block(const char* what, const void* obj, u64 deadline) {
    Thr* me = cur;
    me->st = BLOCK;
    me->what = what;
    me->obj = obj;
    me->deadline = deadline;
    me->timed_out = false;
    step();
    hmix(shared->ihash, 977 * 64 + me->id);
    Thr* t = pick(me, false, false);
    if (t != me) switch_to(t);
    me->deadline = ~0ull;
    me->obj = nullptr;
    return me->timed_out;
}
static void unblock(Thr* t) {
    t->st = RUN;
    t->deadline = ~0ull;
}

// ---------------------------------------------------------------------------------------------- heap
struct Hdr {
    u64 magic;
    u64 size;
    u32 serial;
    u32 live;
    uptr pc;
};
static_assert(sizeof(Hdr) == 32);
constexpr u64 MAGIC = 0xD51A0C0FFEE0B10Cull;
static uptr heap_p = HEAP + 64, big_p = BIG + 4096;
static vec<uptr>* blocks; // user addresses (all, live or dead)
struct BigBlk { uptr a; size_t n; bool live; };
static vec<BigBlk>* bigs;
static size_t nlive;
static u32 serial;

static inline Hdr* hdr(uptr a) { return (Hdr*)(a - 32); }
static inline bool in_heap(uptr a) { return a - HEAP < HEAP_SZ + BIG_SZ; }

static void race_range(uptr a, size_t n, bool w, uptr pc);

static void* arena_alloc(size_t n, size_t align, uptr pc) {
    bool bigb = n > 65536;
    uptr& p = bigb ? big_p : heap_p;
    if (align < 16) align = 16;
    uptr a = (p + 32 + align - 1) & ~(align - 1);
    if (align == 16 && !(a & 16)) a += 16; // never better aligned than asked for
    else if (align < 64 && align > 16 && !(a & align)) a += align;
    uptr e = a + n;
    if (e + 64 > (bigb ? BIG + BIG_SZ : HEAP + HEAP_SZ)) internal_error("simulated heap exhausted");
    p = ((e + 7) & ~7ull) + 16;
    auto* h = hdr(a);
    h->magic = MAGIC;
    h->size = n;
    h->serial = ++serial;
    h->live = 1;
    h->pc = pc;
    if (bigb) {
        bigs->push_back({ a, n, true });
    } else {
        u8* s = poison() + ((a - HEAP) >> 3);
        memset(s, 8, n >> 3);
        if (n & 7) s[n >> 3] = n & 7;
        memset((void*)a, 0xAA, n);
    }
    blocks->push_back(a);
    nlive++;
    return (void*)a;
}
static void arena_free(void* q, size_t size_known, bool sized, uptr pc) {
    uptr a = (uptr)q;
    auto* h = hdr(a);
    if ((a & 15) || h->magic != MAGIC) violation("bad-free", "free of an address that is not an allocated block");
    if (!h->live) violation("bad-free", "double free of block #%u (%llu bytes)", h->serial, (unsigned long long)h->size);
    if (sized && size_known != h->size)
        violation("bad-free", "sized delete with %zu, allocated %llu", size_known, (unsigned long long)h->size);
    if (cur && !cur->quiet && multi && !norace && h->size <= 65536) race_range(a, h->size, true, pc);
    h->live = 0;
    nlive--;
    if (a >= BIG) {
        for (auto& b : *bigs) if (b.a == a) b.live = false;
    } else {
        memset(poison() + ((a - HEAP) >> 3), 0xFD, (h->size + 7) >> 3);
        memset(q, 0xDD, h->size);
    }
}

static void heap_check_slow(uptr a, size_t n, bool w) {
    const char* rw = w ? "write" : "read";
    if (a >= BIG) {
        for (auto& b : *bigs)
            if (a >= b.a && a + n <= b.a + b.n) {
                if (b.live) return;
                violation("uaf", "%s of %zu bytes in freed block (%zu bytes)", rw, n, b.n);
            }
        violation("heap-oob", "%s of %zu bytes outside any block", rw, n);
    }
    uptr x = a;
    while (x < a + n) {
        uptr c = (x - HEAP) >> 3;
        u8 s = poison()[c];
        uptr end = std::min<uptr>(a + n, (x & ~7ull) + 8);
        if (s == 0xFD) {
            // find block
                u64 sz = 0, off = 0; u32 ser = 0;
            for (size_t i = 0; i < blocks->size(); i++) {
                uptr b = (*blocks)[i];
                if (x >= b && x < b + hdr(b)->size + 8) { sz = hdr(b)->size; off = x - b; ser = hdr(b)->serial; }
            }
            violation("uaf", "%s of %zu bytes at offset %llu of freed block #%u (%llu bytes)", rw, n, (unsigned long long)off, ser,
                (unsigned long long)sz);
        }
        if (s > 8 || s == 0 || (s < 8 && (end - 1 - (x & ~7ull)) >= s))
            violation("heap-oob", "%s of %zu bytes outside any allocated block", rw, n);
        x = end;
    }
}
static inline void heap_check(uptr a, size_t n, bool w) {
    if (a - HEAP < HEAP_SZ) {
        u8 s = poison()[(a - HEAP) >> 3];
        if (__builtin_expect(s == 8 && (a & 7) + n <= 8, 1)) return;
        heap_check_slow(a, n, w);
    } else if (a - BIG < BIG_SZ) heap_check_slow(a, n, w);
}

// ---------------------------------------------------------------------------------------------- race detector
// record: tid 0..5 | w 6 | atomic 7 | mask 8..15 | epoch 16..47 | valid 48
static bool is_tracked(uptr a, uptr& cell) {
    if (a - HEAP < TRACK_SZ) { cell = (a - HEAP) >> 3; return true; }
    if (a - g_base < g_size) { cell = (TRACK_SZ + (a - g_base)) >> 3; return true; }
    return false;
}
[[noreturn]] static void report_race(uptr a, unsigned n, bool w, bool at, u64 old, uptr pc) {
    if (cur->depth < 1024) cur->stack[cur->depth++] = pc;
    const char* region = a - HEAP < HEAP_SZ + BIG_SZ ? "heap" : a - STK < STK_SZ ? "stack/thread-local" : "global";
    char extra[128] = "";
    if (a - STK < STK_SZ) snprintf(extra, sizeof extra, " of T%d", (int)((a - STK) / STK_ONE));
    violation("race", "data race: %s%s of %u bytes by T%d conflicts with earlier %s%s by T%d (%s memory%s, not ordered by happens-before)",
        at ? "atomic " : "", w ? "write" : "read", n, cur->id, (old >> 7) & 1 ? "atomic " : "", (old >> 6) & 1 ? "write" : "read",
        (int)(old & 63), region, extra);
}
static inline void race_cell(uptr a, uptr cell, unsigned off, unsigned n, bool w, bool at, uptr pc) {
    Thr* me = cur;
    Cell& c = cells()[cell];
    u64 mask = ((1u << n) - 1) << off;
    u64 rec = (u64)me->id | ((u64)w << 6) | ((u64)at << 7) | (mask << 8) | ((u64)me->clk.v[me->id] << 16) | (1ull << 48);
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        u64 o = c.r[i];
        if (o == rec) return;
        if (!o) {
            if (slot < 0) slot = i;
            continue;
        }
        if (!((o >> 8) & 0xff & mask)) continue;
        int ot = o & 63;
        if (ot == me->id) {
            // same thread: replace if same mask and (we are the stronger or equal access)
            if (((o >> 8) & 0xff) == mask && (((o >> 6) & 3) == ((rec >> 6) & 3) || (w && !at))) { slot = i; }
            continue;
        }
        bool ow = (o >> 6) & 1, oa = (o >> 7) & 1;
        u32 e = (u32)(o >> 16);
        if (e > me->clk.v[ot]) {
            if ((w || ow) && !(at && oa)) report_race(a, n, w, at, o, pc);
        } else if (w && !at && ((o >> 8) & 0xff & ~mask) == 0) {
            slot = i; // dominated by this write
        }
    }
    if (slot < 0) slot = (int)((g_access * 0x9E3779B1u) >> 7) & 3;
    c.r[slot] = rec;
}
static void drop_locs(uptr a, size_t n, uptr cell);

static inline void dead_stack_check(uptr a, size_t n, bool w) {
    int o = (int)((a - STK) / STK_ONE);
    if (o != cur->id && o < nthr && thr[o]->st == DONE)
        violation("dead-thread-memory", "%s of %zu bytes in the stack/thread-local storage of exited thread T%d", w ? "write" : "read", n, o);
}
static inline __attribute__((always_inline)) void access(uptr a, unsigned n, bool w, bool at, uptr pc) {
    Thr* me = cur;
    if (!me || me->quiet) return;
    if (__builtin_expect(++g_access > cfg.max_access, 0)) hang("livelock", "memory access budget exhausted (loop without progress)");
    uptr cell;
    if (!is_tracked(a, cell)) {
        if (a < 4096) { if (me->depth < 1024) me->stack[me->depth++] = pc; violation("crash:null", "null pointer %s (address %#lx)", w ? "write" : "read", (long)a); }
        return;
    }
    if (a - HEAP < HEAP_SZ + BIG_SZ) {
        if (a - HEAP >= HEAP_SZ || poison()[(a - HEAP) >> 3] != 8 || (a & 7) + n > 8) {
            if (me->depth < 1023) me->stack[me->depth] = pc;
            me->depth++;
            heap_check_slow(a, n, w);
            me->depth--;
        }
    } else if (a - STK < STK_SZ) dead_stack_check(a, n, w);
    if (__builtin_expect(cfg.watch != 0, 0) && a <= cfg.watch && cfg.watch < a + n)
        tracef("[%llu] WATCH T%d %s%s %u pc=%#lx epoch=%u", (unsigned long long)g_seq, me->id, at ? "atomic " : "", w ? "write" : "read", n, (long)pc, me->clk.v[me->id]);
    unsigned off = a & 7;
    if (w && !at && (flags()[cell] | flags()[cell + (off + n > 8)])) drop_locs(a, n, cell);
    if (!multi || norace) return;
    if (off + n <= 8) race_cell(a, cell, off, n, w, at, pc);
    else {
        unsigned n1 = 8 - off;
        race_cell(a, cell, off, n1, w, at, pc);
        unsigned rest = n - n1;
        uptr k = cell + 1;
        while (rest) {
            unsigned m = rest > 8 ? 8 : rest;
            race_cell(a, k++, 0, m, w, at, pc);
            rest -= m;
        }
    }
}
static void range_access(uptr a, size_t n, bool w, uptr pc) {
    Thr* me = cur;
    if (!me || me->quiet || !n) return;
    uptr cell;
    if (!is_tracked(a, cell)) {
        if (a < 4096) violation("crash:null", "null pointer %s (address %#lx)", w ? "write" : "read", (long)a);
        return;
    }
    if (in_heap(a)) heap_check_slow(a, n, w);
    uptr e = a + n;
    g_access += n / 8;
    while (a < e) {
        uptr m = std::min<uptr>(e, (a & ~7ull) + 8) - a;
        access(a, m, w, false, pc);
        a += m;
    }
}
static void race_range(uptr a, size_t n, bool w, uptr pc) {
    uptr e = a + n;
    while (a < e) {
        uptr m = std::min<uptr>(e, (a & ~7ull) + 8) - a;
        uptr cell;
        if (is_tracked(a, cell)) race_cell(a, cell, a & 7, m, w, false, pc);
        a += m;
    }
}

// ---------------------------------------------------------------------------------------------- weak memory
struct Store {
    u64 val;
    u64 idx;
    u32 epoch;
    u8 tid;
    bool sc;
    Clock* msg;
};
struct Acc { u32 epoch; u64 idx; };
struct ReadLog { // ring of the last reads of one thread
    Acc a[6];
    int n;
    bool dropped;
};
struct ScAcc { int fcount; u64 idx; };
struct Loc {
    uptr addr;
    unsigned size;
    u64 next_idx;
    int n; // stores kept
    Store s[12];
    ReadLog* reads[NT];
    ScAcc sc[8];
    int nsc;
    bool sc_dropped;
    u64 last_sc_idx;
    bool any_sc;
};
static umap<uptr, Loc*>* locs;
static vec<Clock*>* gf_snap; // per SC fence number (1-based: [k-1])
static Clock gf;
static int fence_no;

static void loc_erase(uptr a) {
    auto it = locs->find(a);
    if (it == locs->end()) return;
    Loc* l = it->second;
    for (auto*& r : l->reads) { free(r); r = nullptr; }
    free(l);
    locs->erase(it);
}
static void drop_locs(uptr a, size_t n, uptr) {
    uptr lo = a & ~7ull, hi = (a + n + 7) & ~7ull;
    for (uptr x = lo; x < hi; x += 8) {
        uptr cell;
        if (!is_tracked(x, cell) || !flags()[cell]) continue;
        bool left = false;
        for (uptr y = x; y < x + 8; y++) {
            auto it = locs->find(y);
            if (it == locs->end()) continue;
            if (y < a + n && y + it->second->size > a) loc_erase(y);
            else left = true;
        }
        if (!left) flags()[cell] = 0;
    }
}
static u64 ld(uptr a, unsigned n) {
    switch (n) {
    case 1: return *(volatile u8*)a;
    case 2: return *(volatile uint16_t*)a;
    case 4: return *(volatile u32*)a;
    default: return *(volatile u64*)a;
    }
}
static void stv(uptr a, unsigned n, u64 v) {
    switch (n) {
    case 1: *(volatile u8*)a = (u8)v; break;
    case 2: *(volatile uint16_t*)a = (uint16_t)v; break;
    case 4: *(volatile u32*)a = (u32)v; break;
    default: *(volatile u64*)a = v;
    }
}
static Loc* get_loc(uptr a, unsigned n) {
    auto it = locs->find(a);
    u64 v = ld(a, n);
    if (it != locs->end()) {
        Loc* l = it->second;
        if (l->size == n && l->s[l->n - 1].val == v) return l;
        loc_erase(a); // written behind our back (or other size): start over
    }
    uptr cell;
    if (is_tracked(a, cell)) flags()[cell] = 1;
    Loc* l = (Loc*)calloc(1, sizeof(Loc));
    l->addr = a;
    l->size = n;
    l->next_idx = 1;
    l->n = 1;
    l->s[0] = Store{ v, 0, 0, 0, false, nullptr };
    (*locs)[a] = l;
    return l;
}
static u64 under(Loc* l, const Clock& c) { // newest store that some access ordered before c has written or read
    u64 r = l->s[0].idx;
    for (int i = l->n - 1; i >= 0; i--) {
        if (l->s[i].idx <= r) break;
        if (l->s[i].epoch <= c.v[l->s[i].tid]) { r = l->s[i].idx; break; }
    }
    for (int t = 0; t < nthr; t++) {
        auto* g = l->reads[t];
        if (!g) continue;
        u32 e = c.v[t];
        bool found = false;
        for (int i = g->n - 1; i >= 0; i--)
            if (g->a[i].epoch <= e) {
                r = std::max(r, g->a[i].idx);
                found = true;
                break;
            }
        if (!found && g->dropped) r = std::max(r, g->a[0].idx); // conservative
    }
    return r;
}
static void log_read(Loc* l, u64 idx) {
    Thr* me = cur;
    auto*& g = l->reads[me->id];
    if (!g) g = (ReadLog*)calloc(1, sizeof(ReadLog));
    if (g->n && g->a[g->n - 1].idx == idx) return; // an earlier read of the same store already constrains as much
    if (g->n == 6) {
        memmove(g->a, g->a + 1, 5 * sizeof(Acc));
        g->n = 5;
        g->dropped = true;
    }
    g->a[g->n++] = { me->clk.v[me->id], idx };
}
static void log_sc(Loc* l, u64 idx) {
    l->any_sc = true;
    l->last_sc_idx = std::max(l->last_sc_idx, idx);
    if (l->nsc && l->sc[l->nsc - 1].fcount == fence_no) {
        l->sc[l->nsc - 1].idx = std::max(l->sc[l->nsc - 1].idx, idx);
        return;
    }
    if (l->nsc == 8) {
        memmove(l->sc, l->sc + 1, 7 * sizeof(ScAcc));
        l->nsc = 7;
        l->sc_dropped = true;
    }
    l->sc[l->nsc++] = { fence_no, l->last_sc_idx };
}
enum { RLX = 0, CONS = 1, ACQ = 2, REL = 3, ACQREL = 4, SC = 5 };
static inline bool is_acq(int mo) { return mo == ACQ || mo == CONS || mo == ACQREL || mo == SC; }
static inline bool is_rel(int mo) { return mo == REL || mo == ACQREL || mo == SC; }

static u64 lower_bound_idx(Loc* l, bool sc) {
    Thr* me = cur;
    u64 lb = under(l, me->clk);
    if (me->clk.scf > 0) {
        int k = me->clk.scf;
        lb = std::max(lb, under(l, *(*gf_snap)[k - 1]));
        bool found = false;
        for (int i = l->nsc - 1; i >= 0; i--)
            if (l->sc[i].fcount < k) {
                lb = std::max(lb, l->sc[i].idx);
                found = true;
                break;
            }
        if (!found && l->sc_dropped) lb = std::max(lb, l->sc[0].idx);
    }
    if (sc) {
        if (l->any_sc) lb = std::max(lb, l->last_sc_idx);
        if (fence_no) lb = std::max(lb, under(l, gf));
    }
    return lb;
}
static void do_acquire(Clock* msg, int mo) {
    Thr* me = cur;
    if (!msg) return;
    if (is_acq(mo)) join(me->clk, *msg);
    else {
        if (!me->has_acq) { me->acq = Clock{}; me->has_acq = true; }
        join(me->acq, *msg);
    }
}
static Clock* release_msg(int mo, Clock* prev) {
    Thr* me = cur;
    Clock* m = nullptr;
    if (is_rel(mo)) m = clone(me->clk);
    else if (me->has_rel) m = clone(me->rel);
    if (prev) {
        if (!m) return prev;
        join(*m, *prev);
    }
    return m;
}
static void tick() {
    Thr* me = cur;
    if (++me->clk.v[me->id] == 0xffffffffu) internal_error("epoch overflow");
}
static void append(Loc* l, u64 v, int mo, Clock* prev) {
    Thr* me = cur;
    if (l->n == 12) {
        memmove(l->s, l->s + 1, 11 * sizeof(Store));
        l->n = 11;
    }
    u64 idx = l->next_idx++;
    l->s[l->n++] = Store{ v, idx, me->clk.v[me->id], (u8)me->id, mo == SC, release_msg(mo, prev) };
    stv(l->addr, l->size, v);
    if (mo == SC) log_sc(l, idx);
}
static inline void hash_val(u64 v) {
    if (v < (1ull << 32) || v - HEAP < TRACK_SZ) hmix(shared->hash, v + 77 * cur->id);
    else hmix(shared->hash, 0x77 + cur->id);
}
static u64 mask_of(unsigned n) { return n == 8 ? ~0ull : ((1ull << (8 * n)) - 1); }

static u64 at_load(uptr a, unsigned n, int mo, uptr pc) {
    Thr* me = cur;
    if (!me || me->quiet) return ld(a, n);
    g_atomics++;
    sched_point(1);
    access(a, n, false, true, pc);
    if (!multi) return ld(a, n);
    tick();
    Loc* l = get_loc(a, n);
    u64 lb = lower_bound_idx(l, mo == SC);
    int newest = l->n - 1;
    int maxback = 0;
    while (newest - maxback > 0 && l->s[newest - maxback - 1].idx >= lb) maxback++;
    int back = 0;
    if (maxback > 0) {
        u32 k = me->cnt[sim::K_STALE]++;
        if (!settled && me->stale_streak < 24) {
            if (cfg.replay) {
                bool f;
                back = replayed(sim::K_STALE, k, 0, f);
                if (back < 0 || back > maxback) back = 0;
            } else if (chance(cfg.rate[sim::K_STALE])) back = 1 + rnd_n(maxback);
            if (back) {
                record(sim::K_STALE, k, back);
                me->stale_streak++;
                if (cfg.trace) tracef("[%llu] T%d load returns older value %#llx (newest %#llx) addr=%#lx", (unsigned long long)g_seq, me->id,
                    (unsigned long long)l->s[newest - back].val, (unsigned long long)l->s[newest].val, (long)a);
            } else me->stale_streak = 0;
        }
    }
    Store& s = l->s[newest - back];
    log_read(l, s.idx);
    if (mo == SC) log_sc(l, s.idx);
    do_acquire(s.msg, mo);
    hash_val(s.val);
    if (cfg.watch == a && cfg.watch) tracef("[%llu] WATCH T%d load -> %#llx", (unsigned long long)g_seq, me->id, (unsigned long long)s.val);
    return s.val;
}
static void at_store(uptr a, unsigned n, u64 v, int mo, uptr pc) {
    Thr* me = cur;
    v &= mask_of(n);
    if (!me || me->quiet) { stv(a, n, v); return; }
    g_atomics++;
    sched_point(2);
    access(a, n, true, true, pc);
    if (!multi) { stv(a, n, v); return; }
    tick();
    Loc* l = get_loc(a, n);
    append(l, v, mo, nullptr);
    tick();
    hash_val(v);
    if (cfg.watch == a && cfg.watch) tracef("[%llu] WATCH T%d store %#llx", (unsigned long long)g_seq, me->id, (unsigned long long)v);
}
template<typename F>
static u64 at_rmw(uptr a, unsigned n, int mo, uptr pc, F f) {
    Thr* me = cur;
    u64 o;
    if (!me || me->quiet) {
        o = ld(a, n);
        stv(a, n, f(o) & mask_of(n));
        return o;
    }
    g_atomics++;
    sched_point(3);
    access(a, n, true, true, pc);
    if (!multi) {
        o = ld(a, n);
        stv(a, n, f(o) & mask_of(n));
        return o;
    }
    tick();
    Loc* l = get_loc(a, n);
    Store s = l->s[l->n - 1];
    o = s.val;
    log_read(l, s.idx);
    do_acquire(s.msg, mo);
    append(l, f(o) & mask_of(n), mo, s.msg);
    tick();
    hash_val(o);
    if (cfg.watch == a && cfg.watch) tracef("[%llu] WATCH T%d rmw %#llx -> %#llx", (unsigned long long)g_seq, me->id, (unsigned long long)o, (unsigned long long)(f(o) & mask_of(n)));
    return o;
}
static bool at_cas(uptr a, unsigned n, u64* expected, u64 desired, int mo, int fmo, bool weak, uptr pc) {
    Thr* me = cur;
    u64 e = *expected & mask_of(n);
    desired &= mask_of(n);
    if (!me || me->quiet) {
        u64 o = ld(a, n);
        if (o == e) { stv(a, n, desired); return true; }
        *expected = o;
        return false;
    }
    g_atomics++;
    sched_point(4);
    access(a, n, true, true, pc);
    if (!multi) {
        u64 o = ld(a, n);
        if (o == e) { stv(a, n, desired); return true; }
        *expected = o;
        return false;
    }
    tick();
    Loc* l = get_loc(a, n);
    Store s = l->s[l->n - 1];
    bool ok = s.val == e;
    if (ok && weak && me->stale_streak < 24 && decide_bool(sim::K_WEAKCAS, cfg.rate[sim::K_WEAKCAS])) {
        me->stale_streak++;
        ok = false;
    } else if (ok) {
        log_read(l, s.idx);
        do_acquire(s.msg, mo);
        append(l, desired, mo, s.msg);
        tick();
        hash_val(s.val);
        return true;
    }
    log_read(l, s.idx);
    if (fmo == SC) log_sc(l, s.idx);
    do_acquire(s.msg, fmo);
    *expected = s.val;
    hash_val(s.val ^ 0x1234);
    return false;
}
static void fence(int mo) {
    Thr* me = cur;
    if (!me || me->quiet || mo == RLX) return;
    sched_point(5);
    if (!multi) return;
    tick();
    if (is_acq(mo) && me->has_acq) {
        join(me->clk, me->acq);
    }
    if (mo == SC) {
        join(gf, me->clk);
        fence_no++;
        gf_snap->push_back(clone(gf));
        me->clk.scf = fence_no;
    }
    if (is_rel(mo)) {
        me->rel = me->clk;
        me->has_rel = true;
    }
    tick();
}

// sync objects
struct Mutex { int owner = -1; int rec = 0; bool inited = false; Clock clk{}; };
struct RwLock { int writer = -1; int readers = 0; Clock wclk{}, rclk{}; };
struct Once { int st = 0; Clock clk{}; };
struct Sem { long v = 0; Clock clk{}; };
static umap<const void*, Mutex>* mutexes;
static umap<const void*, RwLock>* rwlocks;
static umap<const void*, Once>* onces;
static umap<const void*, Sem>* sems;

static void wake_all(const void* obj) {
    for (int i = 0; i < nthr; i++)
        if (thr[i]->st == BLOCK && thr[i]->obj == obj) unblock(thr[i]);
}
static int choose_waiter(int m) {
    u32 n = cur->cnt[sim::K_WAKE]++;
    int c = 0;
    if (!settled && m > 1) {
        if (cfg.replay) {
            bool f;
            c = replayed(sim::K_WAKE, n, 0, f);
            if (c < 0 || c >= m) c = 0;
        } else if (cfg.strategy != 2) c = (int)rnd_n(m);
        if (c) record(sim::K_WAKE, n, c);
    }
    return c;
}
static int wake_n(const void* obj, int n, const char* what) {
    int k = 0;
    while (k < n) {
        Thr* w[NT];
        int m = 0;
        for (int i = 0; i < nthr; i++)
            if (thr[i]->st == BLOCK && thr[i]->obj == obj && thr[i]->what == what) w[m++] = thr[i];
        if (!m) break;
        unblock(w[choose_waiter(m)]);
        k++;
    }
    return k;
}
static bool mutex_lock(pthread_mutex_t* m, u64 deadline = ~0ull) {
    Thr* me = cur;
    sched_point(6);
    access((uptr)m, 1, false, true, (uptr)__builtin_return_address(0));
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    while ((*mutexes)[m].owner != -1) {
        if ((*mutexes)[m].owner == me->id) {
            if (recursive) { (*mutexes)[m].rec++; return true; }
            if (deadline == ~0ull) hang("deadlock", "thread locks a mutex it already holds");
        }
        if (block("mutex", m, deadline)) return false;
    }
    auto& x = (*mutexes)[m];
    x.owner = me->id;
    x.rec = 1;
    tick();
    join(me->clk, x.clk);
    hmix(shared->hash, 600 + me->id);
    return true;
}
static void mutex_unlock(pthread_mutex_t* m, bool point = true) {
    Thr* me = cur;
    access((uptr)m, 1, false, true, (uptr)__builtin_return_address(0));
    auto& x = (*mutexes)[m];
    if (x.owner != me->id) violation("bad-unlock", "unlock of a mutex not held by this thread");
    if (--x.rec > 0) return;
    x.owner = -1;
    x.clk = me->clk;
    tick();
    wake_all(m);
    if (point) sched_point(7);
}

static void thread_done() {
    Thr* me = cur;
    me->st = DONE;
    tick();
    for (int i = 0; i < nthr; i++)
        if (thr[i]->st == BLOCK && thr[i]->obj == me && thr[i]->what[0] == 'j') unblock(thr[i]);
    tracef("[%llu] T%d exits", (unsigned long long)g_seq, me->id);
    step();
    Thr* t = pick(me, false, false);
    switch_to(t);
    for (;;) raw_syscall6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
static void run_tls_dtors() {
    Thr* me = cur;
    while (!me->dtors->empty()) {
        auto d = me->dtors->back();
        me->dtors->pop_back();
        d.f(d.o);
    }
}
static void setup_sigstack() {
    stack_t ss{};
    ss.ss_size = 64 << 10;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
}
static void* thr_main(void* p) {
    Thr* t = (Thr*)p;
    setup_sigstack();
    baton_wait(t);
    cur = t;
    t->ret = t->fn(t->arg);
    run_tls_dtors();
    thread_done();
    return nullptr;
}
using pthread_create_t = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pthread_create_t real_pthread_create;

static Thr* new_thread(void* (*fn)(void*), void* arg) {
    if (nthr >= NT) internal_error("too many simulated threads");
    auto* t = (Thr*)bump(sizeof(Thr));
    memset((void*)t, 0, sizeof *t);
    t->id = nthr;
    t->st = RUN;
    t->fn = fn;
    t->arg = arg;
    t->deadline = ~0ull;
    t->dtors = mk<vec<TlsDtor>>();
    t->prio = cfg.strategy == 1 && !cfg.replay ? (int)(rnd() >> 40) : 0;
    if (t->prio < 1) t->prio = 1;
    t->clk.v[t->id] = 1;
    thr[nthr++] = t;
    if (nthr > 1) multi = true;
    pthread_attr_t at;
    pthread_attr_init(&at);
    uptr s = STK + (uptr)t->id * STK_ONE;
    mprotect((void*)s, 4096, PROT_NONE);
    pthread_attr_setstack(&at, (void*)(s + 4096), STK_ONE - 4096);
    int r = real_pthread_create(&t->real, &at, thr_main, t);
    if (r) internal_error("real pthread_create failed: %d", r);
    pthread_attr_destroy(&at);
    return t;
}

// ---------------------------------------------------------------------------------------------- crash handling
static void on_signal(int sig, siginfo_t* si, void*) {
    const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL"
                     : sig == SIGBUS                                                                        ? "SIGBUS"
                                                                                                            : "SIGXCPU";
    if (sig == SIGXCPU) hang("livelock", "run used up its CPU time (loop without any simulated operation)");
    char c[64];
    snprintf(c, sizeof c, "crash:%s", nm);
    uptr fa = (uptr)si->si_addr;
    bool det = fa < 4096 || fa - HEAP < TRACK_SZ;
    if (sig == SIGSEGV || sig == SIGBUS) violation(c, "invalid memory access%s", det ? "" : " (wild address)");
    violation(c, "process died from a signal");
}
static void on_terminate() {
    if (cur) cur->quiet++;
    static char w[512];
    snprintf(w, sizeof w, "std::terminate called (exception escaped a noexcept function or a thread)");
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (const std::exception& x) {
            snprintf(w, sizeof w, "std::terminate called (exception escaped a noexcept function or a thread): %.200s", x.what());
        } catch (...) {}
    }
    violation("terminate", "%s", w);
}

void init_process() {
    auto map = [](uptr a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { fprintf(stderr, "dsim: cannot map %#lx\n", (long)a); _exit(2); }
    };
    g_base = (uptr)__data_start & ~63ull;
    g_size = (((uptr)_end + 63) & ~63ull) - g_base;
    map(HEAP, TRACK_SZ);
    map(SHADOW, (TRACK_SZ + g_size) * 4 + 4096);
    map(POISON, HEAP_SZ / 8 + 4096);
    map(FLAGS, (TRACK_SZ + g_size) / 8 + 4096);
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shared == MAP_FAILED) _exit(2);
    real_pthread_create = (pthread_create_t)dlsym(RTLD_NEXT, "pthread_create");
    if (!real_pthread_create) _exit(2);
    std::set_terminate(on_terminate);
}

static const sim::Case* g_case;
static void* scenario_main(void*) {
    g_sc->run(*g_case);
    // final state
    Thr* me = cur;
    me->quiet++;
    publish();
    hmix(shared->hash, g_steps);
    hmix(shared->hash, g_now);
    shared->status = 1;
    _exit(0);
    return nullptr;
}

void child_main(const Cfg& c, const sim::Scenario& sc, const sim::Case& cs) {
    cfg = c;
    prng_s = mix64(c.seed * 0x9e3779b97f4a7c15ull + 0x51);
    shared->hash = 0xcbf29ce484222325ull;
    shared->ihash = 0xcbf29ce484222325ull;
    shared->shash = 0xcbf29ce484222325ull;
    blocks = mk<vec<uptr>>();
    blocks->reserve(1024);
    bigs = mk<vec<BigBlk>>();
    locs = mk<umap<uptr, Loc*>>();
    gf_snap = mk<vec<Clock*>>();
    mutexes = mk<umap<const void*, Mutex>>();
    rwlocks = mk<umap<const void*, RwLock>>();
    onces = mk<umap<const void*, Once>>();
    sems = mk<umap<const void*, Sem>>();
    rmap = mk<umap<u64, int32_t>>();
    pct_points = mk<vec<u32>>();
    if (c.replay)
        for (u32 i = 0; i < c.nrdec; i++) (*rmap)[rkey(c.rdec[i].kind, c.rdec[i].tid, c.rdec[i].n)] = c.rdec[i].val;
    else if (c.strategy == 1) {
        for (int i = 0; i < c.pct_d; i++) pct_points->push_back(1 + rnd_n(c.pct_k));
        std::sort(pct_points->rbegin(), pct_points->rend());
    }
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGXCPU }) sigaction(s, &sa, nullptr);
    rlimit rl{ 30, 40 };
    setrlimit(RLIMIT_CPU, &rl);
    rlimit rc{ 0, 0 };
    setrlimit(RLIMIT_CORE, &rc);
    g_now = 1000000000ull * 1000;
    g_sc = &sc;
    norace = sc.flags & sim::NO_RACE;
    g_case = &cs;
    active = true;
    Thr* t = new_thread(scenario_main, nullptr);
    baton_give(t);
    for (;;) pause();
}

} // namespace rt

using namespace rt;
#define PC ((uptr)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------ harness API
namespace sim {
Quiet::Quiet() noexcept { if (cur) cur->quiet++; }
Quiet::~Quiet() noexcept { if (cur) cur->quiet--; }
Allow::Allow(unsigned m) noexcept : saved(cur ? cur->allow : 0) { if (cur) cur->allow = m; }
Allow::~Allow() noexcept { if (cur) cur->allow = saved; }
void point() noexcept { if (simulated()) sched_point(20); }
bool inject(int kind) noexcept {
    if (!simulated() || !(cur->allow & (1u << kind))) return false;
    bool r = decide_bool(kind, cfg.rate[kind]);
    if (r) tracef("[%llu] T%d injected %s", (unsigned long long)g_seq, cur->id, kind_name[kind]);
    return r;
}
void fail(const char* cls, const char* fmt, ...) noexcept {
    va_list ap;
    va_start(ap, fmt);
    die(2, cls, fmt, ap);
}
void note(const char* fmt, ...) noexcept {
    if (!cfg.trace) return;
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    tracef("[%llu] T%d %s", (unsigned long long)g_seq, cur ? cur->id : -1, b);
}
void probe(int id) noexcept { shared->probes[id & 63]++; }
void state(uint64_t h) noexcept { hmix(shared->shash, h); hmix(shared->hash, h); }
int tid() noexcept { return cur ? cur->id : -1; }
int threads_alive() noexcept {
    int n = 0;
    for (int i = 0; i < nthr; i++) n += thr[i]->st != DONE;
    return n;
}
uint64_t seq() noexcept { return ++g_seq; }
uint64_t now_ns() noexcept { return g_now; }
uint64_t steps() noexcept { return g_steps; }
bool in_faults() noexcept { return !settled; }
uint64_t injected(int kind) noexcept { return shared->fired[kind]; }
void settle() noexcept {
    if (!settled) enter_settle(cfg.settle_steps);
    else settle_limit = std::max(settle_limit, g_steps + cfg.settle_steps);
}
void on_hang(void (*f)(void*), void* a) noexcept { hang_fn = f; hang_arg = a; }
void set_hw_threads(unsigned n) noexcept { hw_threads = n; }
size_t live_blocks() noexcept { return nlive; }
bool heap_valid(const void* p, size_t n) noexcept {
    uptr a = (uptr)p;
    if (!in_heap(a)) return true;
    if (a >= BIG) {
        for (auto& b : *bigs) if (a >= b.a && a + n <= b.a + b.n) return b.live;
        return false;
    }
    for (uptr x = a; x < a + n; x++) {
        u8 s = poison()[(x - HEAP) >> 3];
        if (s == 0 || s > 8 || (x & 7) >= s) return false;
    }
    return true;
}
void reset_tls_exit() noexcept { run_tls_dtors(); }
void check_leaks(const char* where) noexcept {
    Quiet q;
    // conservative reachability from globals, live thread stacks/TLS and (transitively) live heap blocks
    std::vector<uptr> live;
    for (uptr b : *blocks) if (hdr(b)->live) live.push_back(b);
    std::sort(live.begin(), live.end());
    std::vector<char> mark(live.size(), 0);
    std::vector<size_t> work;
    auto visit = [&](uptr v) {
        if (!in_heap(v)) return;
        auto it = std::upper_bound(live.begin(), live.end(), v);
        if (it == live.begin()) return;
        --it;
        size_t i = it - live.begin();
        if (v > *it + hdr(*it)->size) return; // one past the end counts (vector end pointers never stand alone)
        if (!mark[i]) { mark[i] = 1; work.push_back(i); }
    };
    auto scan = [&](uptr a, uptr e) { for (a = (a + 7) & ~7ull; a + 8 <= e; a += 8) visit(*(uptr*)a); };
    scan(g_base, g_base + g_size);
    jmp_buf regs; // spill registers
    setjmp(regs);
    volatile uptr here = (uptr)&here;
    here = std::min<uptr>((uptr)&here, (uptr)&regs);
    for (int i = 0; i < nthr; i++) {
        if (thr[i]->st == DONE) continue;
        uptr s = STK + (uptr)i * STK_ONE;
        uptr lo = s + 4096;
        if (i == cur->id) lo = here & ~7ull;
        scan(lo, s + STK_ONE);
        for (auto& d : *thr[i]->dtors) visit((uptr)d.o);
        visit((uptr)thr[i]->arg);
    }
    // memory of the ordinary heap that belongs to the process's static state is not scanned except through
    // registered roots: the writable mappings of the process (zygote heap)
    FILE* f = fopen("/proc/self/maps", "r");
    char line[512];
    std::vector<std::pair<uptr, uptr>> rg;
    while (f && fgets(line, sizeof line, f)) {
        uptr a, e;
        char perm[8];
        if (sscanf(line, "%lx-%lx %7s", &a, &e, perm) != 3) continue;
        if (perm[0] != 'r' || perm[1] != 'w') continue;
        if (a >= HEAP && a < 0x400000000000ull) continue;
        if (strstr(line, "[stack]") || (uptr)shared - a < e - a) continue;
        bool heap = strstr(line, "[heap]") != nullptr;
        bool lib = strstr(line, ".so") != nullptr;
        if (!heap && !lib && a != 0) {
            // anonymous: glibc arenas of threads (malloc) -- scan too, they are small
            if (e - a > (64u << 20)) continue;
        }
        rg.push_back({ a, e });
    }
    if (f) fclose(f);
    // do not let our own bookkeeping count as a reference
    auto own = [&](uptr a) {
        uptr b = (uptr)blocks->data(), be = b + blocks->capacity() * 8;
        uptr l = (uptr)live.data(), le = l + live.capacity() * 8;
        return (a >= b && a < be) || (a >= l && a < le);
    };
    for (auto [a, e] : rg)
        for (uptr x = a; x + 8 <= e; x += 8) {
            if (own(x)) continue;
            uptr v = *(uptr*)x;
            if (in_heap(v)) visit(v);
        }
    while (!work.empty()) {
        size_t i = work.back();
        work.pop_back();
        if (hdr(live[i])->size <= (1u << 20)) scan(live[i], live[i] + hdr(live[i])->size);
        else scan(live[i], live[i] + 65536);
    }
    size_t n = 0, bytes = 0, first = ~0ull;
    for (size_t i = 0; i < live.size(); i++)
        if (!mark[i]) { if (first == ~0ull) first = i; n++; bytes += hdr(live[i])->size; }
    if (n) {
        if (cur->depth < 1024) cur->stack[cur->depth++] = hdr(live[first])->pc;
        violation("leak", "%s: %zu unreachable block(s), %zu bytes; first: %llu bytes", where, n, bytes, (unsigned long long)hdr(live[first])->size);
    }
}
} // namespace sim

// ------------------------------------------------------------------------------------------------ tsan ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    Thr* t = cur;
    if (!t) return;
    if ((unsigned)t->depth < 1024) t->stack[t->depth] = (uptr)pc;
    t->depth++;
}
void __tsan_func_exit() {
    Thr* t = cur;
    if (t && t->depth > 0) t->depth--;
}
#define RW(n)                                                                                                                  \
    void __tsan_read##n(void* a) { access((uptr)a, n, false, false, PC); }                                                     \
    void __tsan_write##n(void* a) { access((uptr)a, n, true, false, PC); }                                                     \
    void __tsan_volatile_read##n(void* a) { access((uptr)a, n, false, false, PC); }                                            \
    void __tsan_volatile_write##n(void* a) { access((uptr)a, n, true, false, PC); }                                            \
    void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, false, false, PC); }                                           \
    void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { range_access((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { range_access((uptr)a, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access((uptr)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access((uptr)p, 8, false, false, PC); }

#define ATOM(bits, T)                                                                                                          \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return (T)at_load((uptr)a, sizeof(T), mo, PC); }               \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_store((uptr)a, sizeof(T), (u64)v, mo, PC); }             \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                                             \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64) { return (u64)v; });                                             \
    }                                                                                                                          \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                                            \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64 o) { return o + (u64)v; });                                       \
    }                                                                                                                          \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                                            \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64 o) { return o - (u64)v; });                                       \
    }                                                                                                                          \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                                            \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64 o) { return o & (u64)v; });                                       \
    }                                                                                                                          \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                                             \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64 o) { return o | (u64)v; });                                       \
    }                                                                                                                          \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                                            \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64 o) { return o ^ (u64)v; });                                       \
    }                                                                                                                          \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                                           \
        return (T)at_rmw((uptr)a, sizeof(T), mo, PC, [=](u64 o) { return ~(o & (u64)v); });                                    \
    }                                                                                                                          \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) {                            \
        u64 x = (u64)*e;                                                                                                       \
        bool r = at_cas((uptr)a, sizeof(T), &x, (u64)d, mo, fmo, false, PC);                                                   \
        if (!r) *e = (T)x;                                                                                                     \
        return r;                                                                                                              \
    }                                                                                                                          \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) {                              \
        u64 x = (u64)*e;                                                                                                       \
        bool r = at_cas((uptr)a, sizeof(T), &x, (u64)d, mo, fmo, true, PC);                                                    \
        if (!r) *e = (T)x;                                                                                                     \
        return r;                                                                                                              \
    }                                                                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) {                                   \
        u64 x = (u64)e;                                                                                                        \
        at_cas((uptr)a, sizeof(T), &x, (u64)d, mo, fmo, false, PC);                                                            \
        return (T)x;                                                                                                           \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

void* dsim_memcpy(void* d, const void* s, size_t n) {
    if (simulated() && n) { range_access((uptr)s, n, false, PC); range_access((uptr)d, n, true, PC); }
    return memcpy(d, s, n);
}
void* dsim_memmove(void* d, const void* s, size_t n) {
    if (simulated() && n) { range_access((uptr)s, n, false, PC); range_access((uptr)d, n, true, PC); }
    return memmove(d, s, n);
}
void* dsim_memset(void* d, int c, size_t n) {
    if (simulated() && n) range_access((uptr)d, n, true, PC);
    return memset(d, c, n);
}
int dsim_memcmp(const void* a, const void* b, size_t n) {
    if (simulated() && n) { range_access((uptr)a, n, false, PC); range_access((uptr)b, n, false, PC); }
    return memcmp(a, b, n);
}

// ------------------------------------------------------------------------------------------------ C++ ABI
int __cxa_guard_acquire(long long* g) {
    auto* b = (volatile u8*)g;
    if (!simulated()) {
        if (b[0]) return 0;
        return 1;
    }
    sched_point(8);
    while (!b[0] && b[1]) {
        if (b[2] == cur->id + 1) hang("deadlock", "recursive static initialisation");
        block("static-guard", g, ~0ull);
    }
    if (b[0]) {
        join(cur->clk, (*onces)[g].clk);
        return 0;
    }
    b[1] = 1;
    b[2] = (u8)(cur->id + 1);
    return 1;
}
void __cxa_guard_release(long long* g) {
    auto* b = (volatile u8*)g;
    b[1] = 0;
    if (!simulated()) { b[0] = 1; return; }
    (*onces)[g].clk = cur->clk;
    tick();
    // the fast path reads the guard byte with an acquire load: give it a message
    if (multi) { Loc* l = get_loc((uptr)g, 1); append(l, 1, REL, nullptr); tick(); }
    else b[0] = 1;
    wake_all(g);
}
void __cxa_guard_abort(long long* g) {
    auto* b = (volatile u8*)g;
    b[1] = 0;
    if (simulated()) wake_all(g);
}
int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso) {
    if (cur) {
        sim::Quiet q;
        cur->dtors->push_back({ f, o });
        return 0;
    }
    using fn = int (*)(void (*)(void*), void*, void*);
    static fn real = (fn)dlsym(RTLD_NEXT, "__cxa_thread_atexit");
    return real ? real(f, o, dso) : 0;
}
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
    (void)fn;
    const char* b = strrchr(file, '/');
    if (cur) violation("assert", "assertion failed: %s (%s:%u)", e, b ? b + 1 : file, line);
    fprintf(stderr, "assert: %s %s:%u\n", e, file, line);
    abort();
}

// ------------------------------------------------------------------------------------------------ pthread seam
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
static u64 abs_to_deadline(const timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!cur) return real_pthread_create ? real_pthread_create(out, at, fn, arg) : REAL(pthread_create)(out, at, fn, arg);
    sched_point(9);
    if (sim::inject(sim::K_THREAD)) return EAGAIN;
    sim::Quiet q;
    Thr* me = cur;
    Thr* t = new_thread(fn, arg);
    int det = 0;
    if (at) pthread_attr_getdetachstate(at, &det);
    t->detached = det == PTHREAD_CREATE_DETACHED;
    tick();
    join(t->clk, me->clk);
    tick();
    *out = t->real;
    tracef("[%llu] T%d creates T%d", (unsigned long long)g_seq, me->id, t->id);
    me->quiet--;
    sched_point(10);
    me->quiet++;
    return 0;
}
static Thr* find_thr(pthread_t p) {
    for (int i = 0; i < nthr; i++) if (pthread_equal(thr[i]->real, p)) return thr[i];
    return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
    if (!cur) return REAL(pthread_join)(p, ret);
    Thr* t = find_thr(p);
    if (!t) return ESRCH;
    sched_point(11);
    if (t == cur) return EDEADLK;
    while (t->st != DONE) block("join", t, ~0ull);
    t->joined = true;
    tick();
    join(cur->clk, t->clk);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!cur) return REAL(pthread_detach)(p);
    if (Thr* t = find_thr(p)) t->detached = true;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!simulated()) { if (!cur) return 0; return 0; }
    mutex_lock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!simulated()) return 0;
    sched_point(12);
    auto& x = (*mutexes)[m];
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (x.owner == cur->id && recursive) { x.rec++; return 0; }
    if (x.owner != -1) return EBUSY;
    x.owner = cur->id;
    x.rec = 1;
    tick();
    join(cur->clk, x.clk);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
    if (!simulated()) return 0;
    return mutex_lock(m, abs_to_deadline(ts)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) { return pthread_mutex_timedlock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!simulated()) return 0;
    mutex_unlock(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (simulated()) {
        auto it = mutexes->find(m);
        if (it != mutexes->end() && it->second.owner != -1) violation("bad-unlock", "a locked mutex is destroyed");
        mutexes->erase(m);
    }
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (cur) mutexes->erase(m);
    return REAL(pthread_mutex_init)(m, a);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    sched_point(13);
    bool spur = decide_bool(sim::K_SPUR, cfg.rate[sim::K_SPUR]);
    int rec = (*mutexes)[m].rec;
    (*mutexes)[m].rec = 1;
    mutex_unlock(m, false);
    bool to = false;
    if (!spur) to = block("condition variable", c, deadline);
    else sched_point(14);
    mutex_lock(m);
    (*mutexes)[m].rec = rec;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!simulated()) return 0;
    return cond_wait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    if (!simulated()) return 0;
    return cond_wait(c, m, abs_to_deadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
    return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!simulated()) return 0;
    sched_point(15);
    // any waiter may be the one woken: pick by a decision-free deterministic hash of the state
    wake_n(c, 1, "condition variable");
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!simulated()) return 0;
    sched_point(15);
    wake_all(c);
    return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!simulated()) return 0;
    sched_point(16);
    while ((*rwlocks)[l].writer != -1) block("rwlock", l, ~0ull);
    auto& x = (*rwlocks)[l];
    x.readers++;
    tick();
    join(cur->clk, x.wclk);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!simulated()) return 0;
    sched_point(16);
    auto& x = (*rwlocks)[l];
    if (x.writer != -1) return EBUSY;
    x.readers++;
    tick();
    join(cur->clk, x.wclk);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!simulated()) return 0;
    sched_point(16);
    while ((*rwlocks)[l].writer != -1 || (*rwlocks)[l].readers) block("rwlock", l, ~0ull);
    auto& x = (*rwlocks)[l];
    x.writer = cur->id;
    tick();
    join(cur->clk, x.wclk);
    join(cur->clk, x.rclk);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!simulated()) return 0;
    sched_point(16);
    auto& x = (*rwlocks)[l];
    if (x.writer != -1 || x.readers) return EBUSY;
    x.writer = cur->id;
    tick();
    join(cur->clk, x.wclk);
    join(cur->clk, x.rclk);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!simulated()) return 0;
    auto& x = (*rwlocks)[l];
    if (x.writer == cur->id) {
        x.writer = -1;
        x.wclk = cur->clk;
    } else if (x.readers > 0) {
        x.readers--;
        join(x.rclk, cur->clk);
    } else violation("bad-unlock", "unlock of an rwlock that is not held");
    tick();
    wake_all(l);
    sched_point(17);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { if (cur) rwlocks->erase(l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!cur) {
        if (*o == 0) { *o = 2; f(); }
        return 0;
    }
    if (!simulated()) { if (*o == 0) { *o = 2; f(); } return 0; }
    sched_point(18);
    while ((*onces)[o].st == 1) block("once", o, ~0ull);
    if (*o == 2 || (*onces)[o].st == 2) { join(cur->clk, (*onces)[o].clk); return 0; }
    (*onces)[o].st = 1;
    struct G { pthread_once_t* o; bool ok = false; ~G() { auto& x = (*onces)[o]; x.st = ok ? 2 : 0; if (ok) *o = 2; x.clk = cur->clk; tick(); wake_all(o); } } g{ o };
    f();
    g.ok = true;
    return 0;
}

int sem_init(sem_t* s, int, unsigned v) { if (cur) { (*sems)[s] = Sem{}; (*sems)[s].v = v; } else *(unsigned*)s = v; return 0; }
int sem_destroy(sem_t* s) { if (cur) sems->erase(s); return 0; }
static Sem& sem_get(sem_t* s) {
    auto it = sems->find(s);
    if (it == sems->end()) { Sem x; x.v = *(unsigned*)s; it = sems->emplace(s, x).first; }
    return it->second;
}
int sem_post(sem_t* s) {
    if (!simulated()) return 0;
    sched_point(19);
    auto& x = sem_get(s);
    x.v++;
    join(x.clk, cur->clk);
    tick();
    wake_all(s);
    return 0;
}
static int sem_wait_until(sem_t* s, u64 dl) {
    sched_point(19);
    if (decide_bool(sim::K_SPUR, cfg.rate[sim::K_SPUR])) { errno = EINTR; return -1; }
    while (sem_get(s).v <= 0)
        if (block("semaphore", s, dl)) { errno = ETIMEDOUT; return -1; }
    auto& x = sem_get(s);
    x.v--;
    join(cur->clk, x.clk);
    return 0;
}
int sem_wait(sem_t* s) { return simulated() ? sem_wait_until(s, ~0ull) : 0; }
int sem_timedwait(sem_t* s, const timespec* ts) { return simulated() ? sem_wait_until(s, abs_to_deadline(ts)) : 0; }
int sem_clockwait(sem_t* s, clockid_t, const timespec* ts) { return sem_timedwait(s, ts); }
int sem_trywait(sem_t* s) {
    if (!simulated()) return 0;
    sched_point(19);
    auto& x = sem_get(s);
    if (x.v <= 0) { errno = EAGAIN; return -1; }
    x.v--;
    join(cur->clk, x.clk);
    return 0;
}
int sem_getvalue(sem_t* s, int* v) { if (cur) *v = (int)sem_get(s).v; return 0; }

int sched_yield() {
    if (simulated()) sched_point(21, true);
    return 0;
}
static int sim_sleep(u64 until) {
    sched_point(22);
    if (until <= g_now) return 0;
    static char sleep_obj;
    block("sleep", &sleep_obj, until);
    return 0;
}
int nanosleep(const timespec* r, timespec* rem) {
    if (!simulated()) return 0;
    (void)rem;
    return sim_sleep(g_now + abs_to_deadline(r));
}
int clock_nanosleep(clockid_t, int fl, const timespec* r, timespec*) {
    if (!simulated()) return 0;
    return sim_sleep((fl & TIMER_ABSTIME) ? abs_to_deadline(r) : g_now + abs_to_deadline(r));
}
int usleep(useconds_t us) {
    if (!simulated()) return 0;
    return sim_sleep(g_now + us * 1000ull);
}
int clock_gettime(clockid_t id, timespec* ts) {
    if (!cur) return (int)raw_syscall6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    if (simulated()) g_now += 20;
    ts->tv_sec = g_now / 1000000000ull;
    ts->tv_nsec = g_now % 1000000000ull;
    return 0;
}
int gettimeofday(timeval* tv, void*) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static u64 sim_random() {
    u64 x = mix64(cfg.seed * 0x9e3779b97f4a7c15ull + (u64)cur->id * 0x1000003 + (++cur->rnd_cnt) * 0xD1B54A32D192ED03ull);
    return x;
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
    if (!cur) return raw_syscall6(SYS_getrandom, (long)b, n, f, 0, 0, 0);
    for (size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)sim_random();
    return n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

static long futex_impl(uptr addr, int op, u32 val, const timespec* ts, u32 val3) {
    int cmd = op & FUTEX_CMD_MASK;
    sched_point(23);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (*(volatile u32*)addr != val) { errno = EAGAIN; return -1; }
        if (decide_bool(sim::K_SPUR, cfg.rate[sim::K_SPUR])) { errno = (cur->cnt[sim::K_SPUR] & 1) ? EINTR : EAGAIN; return -1; }
        u64 dl = ~0ull;
        if (ts) dl = cmd == FUTEX_WAIT ? g_now + abs_to_deadline(ts) : abs_to_deadline(ts);
        if (ts && dl <= g_now) { errno = ETIMEDOUT; return -1; }
        cur->bitset = cmd == FUTEX_WAIT ? ~0u : val3;
        if (block("futex", (void*)addr, dl)) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        u32 bs = cmd == FUTEX_WAKE ? ~0u : val3;
        int k = 0;
        while (k < (int)val) {
            Thr* w[NT];
            int m = 0;
            for (int i = 0; i < nthr; i++)
                if (thr[i]->st == BLOCK && thr[i]->obj == (void*)addr && thr[i]->what[0] == 'f' && (thr[i]->bitset & bs)) w[m++] = thr[i];
            if (!m) break;
            unblock(w[choose_waiter(m)]);
            k++;
        }
        return k;
    }
    internal_error("unsupported futex operation %d", op);
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && simulated()) return futex_impl((uptr)a, (int)b, (u32)c, (const timespec*)d, (u32)f);
    if (n == SYS_getrandom && cur) return getrandom((void*)a, b, c);
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
} // extern "C"

// libstdc++ seams
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return cur ? (result_type)sim_random() : 12345u; }
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
unsigned thread::hardware_concurrency() noexcept { return cur ? hw_threads : 4; }
} // namespace std

// ------------------------------------------------------------------------------------------------ allocation
static void* do_new(size_t n, size_t align, bool nothrow, uptr pc) {
    if (cur && !cur->quiet) {
        if ((cur->allow & (1u << sim::K_ALLOC)) && sim::inject(sim::K_ALLOC)) {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if (n > (1ull << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        return arena_alloc(n ? n : 1, align, pc);
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void do_del(void* p, size_t n, bool sized, uptr pc) {
    if (!p) return;
    if (in_heap((uptr)p)) arena_free(p, n ? n : 1, sized, pc);
    else free(p);
}
void* operator new(size_t n) { return do_new(n, 16, false, PC); }
void* operator new[](size_t n) { return do_new(n, 16, false, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false, PC); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true, PC); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true, PC); }
void operator delete(void* p) noexcept { do_del(p, 0, false, PC); }
void operator delete[](void* p) noexcept { do_del(p, 0, false, PC); }
void operator delete(void* p, size_t n) noexcept { do_del(p, n, true, PC); }
void operator delete[](void* p, size_t n) noexcept { do_del(p, n, true, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p, 0, false, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p, 0, false, PC); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { do_del(p, n, true, PC); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { do_del(p, n, true, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_del(p, 0, false, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_del(p, 0, false, PC); }
