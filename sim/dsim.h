// dsim: deterministic simulator, API used by the harnesses (instrumented code).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// Kinds of decisions.  Everything nondeterministic in a run is one of these; only decisions that differ from
// the default (0 / "keep running the current thread") are recorded in a replay file.
enum Kind : int {
    K_SWITCH = 0, // scheduler: run another thread at this point
    K_STALE,      // a load returns an older store the C++20 memory model allows
    K_ALLOC,      // operator new throws std::bad_alloc
    K_THROW,      // a component operation throws (placed by the harness)
    K_SPUR,       // a blocking wait returns spuriously / EINTR
    K_TIME,       // simulated clock jumps to the next pending deadline
    K_WEAKCAS,    // compare_exchange_weak fails spuriously / a failing strong CAS reads an older value
    K_THREAD,     // pthread_create fails with EAGAIN
    K_STALL,      // a thread is not scheduled for a long while (as long as others can run)
    K_WAKE,       // which of several waiters is woken
    K_N
};
extern const char* const kind_name[K_N];

// While a Quiet object lives on a thread, that thread is not instrumented, not interrupted and meets no faults.
// Used by oracles and workload generation.  Allocations then come from the ordinary heap.
struct Quiet {
    Quiet() noexcept;
    ~Quiet() noexcept;
    Quiet(const Quiet&) = delete;
};

// Enables fault kinds (bit mask of 1<<Kind) that are off by default (K_ALLOC, K_THROW, K_THREAD) on this thread.
struct Allow {
    explicit Allow(unsigned mask) noexcept;
    ~Allow() noexcept;
    Allow(const Allow&) = delete;
    unsigned saved;
};

void point() noexcept;                 // explicit scheduling point
bool inject(int kind) noexcept;        // harness fault point; true = inject now (only if allowed on this thread)
[[noreturn]] void fail(const char* cls, const char* fmt, ...) noexcept __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) noexcept __attribute__((format(printf, 1, 2)));  // trace line
void probe(int id) noexcept;           // reach counter, 0..63
void state(uint64_t h) noexcept;       // mixes h into the run's state measure
int tid() noexcept;
int threads_alive() noexcept;          // simulated threads not finished
uint64_t seq() noexcept;               // global event number
uint64_t now_ns() noexcept;
uint64_t steps() noexcept;
bool in_faults() noexcept;             // whether faults are still being injected
uint64_t injected(int kind) noexcept;  // how often this kind fired so far in this run
void settle() noexcept;                // faults stop, scheduling becomes fair; a step budget for progress starts
void set_hw_threads(unsigned n) noexcept;
// memory
size_t live_blocks() noexcept;         // blocks of the simulated heap currently allocated
void check_leaks(const char* where) noexcept; // unreachable blocks of the simulated heap -> violation "leak"
bool heap_valid(const void* p, size_t n) noexcept;  // p..p+n is inside live simulated heap (or not heap memory)
void reset_tls_exit() noexcept;        // run thread_local destructors of the calling (main) simulated thread now

// ---- workloads --------------------------------------------------------------------------------------------
struct Op {
    int k = 0;
    int64_t a[6] = {};
};
struct Rng { // workload PRNG
    uint64_t s;
    uint64_t next() noexcept {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int64_t below(int64_t n) noexcept { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
    int64_t range(int64_t a, int64_t b) noexcept { return a + below(b - a + 1); }
    bool chance(int num, int den) noexcept { return below(den) < num; }
    template<typename... T> int64_t pick(T... v) noexcept {
        int64_t arr[] = { (int64_t)v... };
        return arr[below(sizeof...(T))];
    }
};
struct Case {
    std::vector<int64_t> p; // parameters
    std::vector<Op> ops;    // removable workload steps
};
struct Scenario {
    const char* name;
    int weight;
    // fault kinds (mask) this scenario uses at all; K_SWITCH etc. are chosen per run from these
    unsigned kinds;
    void (*gen)(Rng&, Case&);
    void (*run)(const Case&);
    std::string (*show)(const Case&, const Op&); // readable op
    const char* desc;
    unsigned flags = 0;
};
enum : unsigned {
    NO_RACE = 1,   // data races are not what this scenario decides
    HANG_OK = 2,   // a run that does not finish is inconclusive (progress is another property's business),
                   // unless the hang handler finds this property broken
};
void on_hang(void (*f)(void*), void* arg) noexcept; // called (quiet) before a deadlock/livelock is reported
struct Property {
    const char* id;
    std::vector<Scenario> scenarios;
    std::vector<const char*> probes;
};
std::vector<Property>& properties();
struct Register {
    Register(Property p) { properties().push_back(std::move(p)); }
};
} // namespace sim
