// internal interface between runtime and driver
#pragma once
#include "dsim.h"
#include <cstdint>

namespace rt {
struct Dec {
    uint8_t kind;
    uint8_t tid;
    uint16_t pad;
    uint32_t n;
    int32_t val;
    uint32_t seq;
};
constexpr uint32_t MAXDEC = 1u << 19;
constexpr uint32_t TRACEBYTES = 1u << 20;
struct Shared {
    int status; // 0 = did not finish, 1 = ok, 2 = violation, 3 = harness/runtime error
    char cls[64];
    char msg[4096];
    uint64_t hash;      // full event hash: determinism
    uint64_t ihash;     // interleaving hash: order of (thread, op kind) at scheduling points + values read
    uint64_t shash;     // state hash reported by the harness
    int inconclusive;
    uint64_t steps, accesses, switches, simns, threads, atomics;
    uint64_t fired[sim::K_N];
    uint64_t probes[64];
    uintptr_t bt[48];
    int nbt;
    uint32_t ndec;
    uint32_t dec_overflow;
    uint32_t ntrace;
    Dec dec[MAXDEC];
    char trace[TRACEBYTES];
};
struct Cfg {
    uint64_t seed = 1;
    // strategy
    int strategy = 0;    // 0 random walk, 1 PCT, 2 only default
    uint32_t p_switch = 0; // per 65536
    int pct_d = 0;       // number of priority change points
    uint32_t pct_k = 1000; // expected steps
    uint32_t rate[sim::K_N] = {}; // per 65536, per opportunity
    uint32_t rotate = 64;
    uint64_t max_steps = 400000;
    uint64_t max_access = 400000000ull;
    uint64_t settle_steps = 1000000;
    bool trace = false;
    bool replay = false;
    const Dec* rdec = nullptr;
    uint32_t nrdec = 0;
    uintptr_t watch = 0;
};
void init_process();      // once, in the zygote
extern Shared* shared;
// runs scenario in this (forked) process; never returns
[[noreturn]] void child_main(const Cfg& cfg, const sim::Scenario& sc, const sim::Case& c);
} // namespace rt
