// C22 scratch memory: linear, stack and per-thread temporary allocators
#include <limits>
#include <cassert>
#include <cstdint>
#include <stdexcept>
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
#include <co_ecs/detail/allocator/temp_allocator.hpp>
#include <co_ecs/thread_pool/parallel_for.hpp>

#include "../sim/dsim.h"

#include <map>
#include <memory>
#include <optional>
#include <thread>
#include <vector>

using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_WEAKCAS) | (1u << sim::K_STALL) | (1u << sim::K_TIME) | (1u << sim::K_WAKE);
constexpr unsigned F = 1u << sim::K_ALLOC;

// blocks in use, of all allocators and threads
struct Blocks {
    std::map<uintptr_t, std::pair<uintptr_t, const char*>> m;
    void add(void* p, size_t n, size_t align, const char* lo, const char* hi, const char* what) {
        sim::Quiet q;
        auto b = (uintptr_t)p, e = b + n;
        if (b % align) sim::fail("oracle:misaligned", "%s returned %zu bytes at an address that is not aligned to %zu", what, n, align);
        if (lo && (p < lo || (const char*)p + n > hi)) sim::fail("oracle:outside", "%s returned %zu bytes that are not within its buffer (offset %td of %td)", what, n, (const char*)p - lo, hi - lo);
        if (!lo && !sim::heap_valid(p, n)) sim::fail("oracle:outside", "%s returned %zu bytes outside of allocated memory", what, n);
        auto it = m.lower_bound(e);
        if (it != m.begin() && (--it)->second.first > b) sim::fail("oracle:overlap", "%s returned %zu bytes that overlap a block in use (of %s)", what, n, it->second.second);
        m[b] = { e, what };
    }
    void del(void* p) {
        sim::Quiet q;
        m.erase((uintptr_t)p);
    }
};

struct Block {
    char* p;
    size_t n, align;
    size_t before; // bytes left before it was allocated
    unsigned char seed;
};
// only the ends of large blocks
template<typename G>
void bytes_of(const Block& b, G&& g) {
    for (size_t i = 0; i < b.n; i++) {
        if (i == 40 && b.n > 90) i = b.n - 40;
        g(b.p[i], (char)(b.seed + i * 7));
    }
}
void fill(const Block& b) {
    bytes_of(b, [](char& c, char v) { c = v; });
}
void verify(const Block& b, const char* what) {
    bytes_of(b, [&](char& c, char v) {
        if (c != v) sim::fail("oracle:corrupted", "the content of a block of %zu bytes in use has changed (%s)", b.n, what);
    });
}

enum { PUSH = 0, POP, RESET, MOVE, MOVE_ASSIGN, LIN, LIN_RESET, REUSE, FORK };
const char* const op_name[] = { "stack: allocate", "stack: release the last", "stack: reset", "stack: move", "stack: move-assign", "linear: allocate", "linear: reset", "stack: release the last and allocate again", "parallel_for" };

void gen_buffers(Rng& g, Case& c) {
    bool tiny = g.chance(1, 3);
    c.p = { tiny ? g.range(1, 20) : g.pick(16, 64, 100, 256, 1000, 4096), g.below(64), tiny ? g.range(1, 20) : g.pick(16, 64, 100, 1000), g.below(64) };
    int n = (int)g.range(2, 40);
    int64_t fav = g.pick(1, 2, 4, 8, 16, 64, 128);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = (int)g.pick(PUSH, PUSH, PUSH, PUSH, POP, POP, REUSE, RESET, MOVE, MOVE_ASSIGN, LIN, LIN, LIN, LIN_RESET);
        o.a[0] = g.chance(1, 3) ? g.range(1, 3) : g.chance(1, 12) ? (int64_t)1 << g.range(20, 62) : g.range(1, std::max<int64_t>(2, c.p[o.k == LIN ? 2 : 0] / g.pick(1, 2, 4, 8)));
        o.a[1] = g.chance(1, 2) ? fav : g.pick(1, 2, 4, 8, 16, 32, 64, 128);
        o.a[2] = g.below(256);
        o.a[3] = g.chance(1, 6); // ask for exactly what is left
        o.a[4] = g.below(4);
        c.ops.push_back(o);
    }
}
void run_buffers(const Case& c) {
    using co_ecs::detail::linear_allocator;
    using co_ecs::detail::stack_allocator;
    Blocks used;
    size_t size = (size_t)c.p[0], lsize = (size_t)c.p[2];
    // the heap ends right behind the buffers
    std::unique_ptr<char[]> buf(new char[size + (size_t)c.p[1]]), lbuf(new char[lsize + (size_t)c.p[3]]), other(new char[32]);
    char *lo = buf.get() + c.p[1], *hi = lo + size, *llo = lbuf.get() + c.p[3], *lhi = llo + lsize;
    {
        std::optional<stack_allocator> st;
        st.emplace(lo, size);
        linear_allocator lin(llo, lsize);
        std::vector<Block> stack, line;
        size_t linear_used = 0;
        auto push = [&](const Op& o) {
            size_t n = (size_t)o.a[0], al = (size_t)o.a[1], left = st->remaining();
            if (o.a[3] && left > (size_t)o.a[4]) n = left - (size_t)o.a[4];
            void* p = st->allocate(n, al);
            if (!p) {
                if (n < left && left - n > al + 16) sim::fail("oracle:failed", "allocating %zu bytes aligned to %zu failed with %zu bytes left", n, al, left);
                if (st->remaining() != left) sim::fail("oracle:failed", "a failed allocation has changed the bytes left from %zu to %zu", left, st->remaining());
                sim::probe(0);
                return;
            }
            if (st->remaining() > left - n || st->remaining() > size) sim::fail("oracle:remaining", "%zu bytes are left after allocating %zu of %zu", st->remaining(), n, left);
            Block b{ (char*)p, n, al, left, (unsigned char)o.a[2] };
            used.add(p, n, al, lo, hi, "stack_allocator");
            fill(b);
            sim::Quiet q;
            stack.push_back(b);
        };
        auto pop = [&] {
            Block b = stack.back();
            verify(b, "release");
            st->deallocate(b.p);
            if (st->remaining() != b.before) sim::fail("oracle:remaining", "%zu bytes are left after releasing a block instead of %zu", st->remaining(), b.before);
            used.del(b.p);
            sim::Quiet q;
            stack.pop_back();
        };
        for (auto& o : c.ops) {
            switch (o.k) {
            case PUSH: push(o); break;
            case POP:
                if (!stack.empty()) pop();
                break;
            case REUSE:
                if (!stack.empty()) {
                    Block b = stack.back();
                    pop();
                    void* p = st->allocate(b.n, b.align);
                    if (!p) sim::fail("oracle:failed", "the space of a released block of %zu bytes cannot be allocated again", b.n);
                    b.p = (char*)p;
                    used.add(p, b.n, b.align, lo, hi, "stack_allocator");
                    fill(b);
                    sim::Quiet q;
                    stack.push_back(b);
                }
                break;
            case RESET:
                st->reset();
                if (st->remaining() != size) sim::fail("oracle:remaining", "%zu bytes are left after a reset instead of %zu", st->remaining(), size);
                for (auto& b : stack) used.del(b.p);
                {
                    sim::Quiet q;
                    stack.clear();
                }
                break;
            case MOVE:
            case MOVE_ASSIGN: {
                size_t left = st->remaining();
                std::optional<stack_allocator> t;
                if (o.k == MOVE) t.emplace(std::move(*st));
                else {
                    t.emplace(other.get(), 32);
                    (void)t->allocate(7, 1);
                    *t = std::move(*st);
                }
                st.reset();
                st.emplace(std::move(*t));
                if (st->remaining() != left) sim::fail("oracle:remaining", "%zu bytes are left after moving an allocator instead of %zu", st->remaining(), left);
                sim::probe(1);
                break;
            }
            case LIN: {
                size_t n = (size_t)o.a[0], al = (size_t)o.a[1];
                if (o.a[3] && lsize > linear_used) n = lsize - linear_used;
                void* p = lin.allocate(n, al);
                if (!p) {
                    if (n < lsize && linear_used + n + al <= lsize) sim::fail("oracle:failed", "allocating %zu bytes aligned to %zu failed with at least %zu bytes left", n, al, lsize - linear_used);
                    sim::probe(0);
                    break;
                }
                Block b{ (char*)p, n, al, 0, (unsigned char)o.a[2] };
                used.add(p, n, al, llo, lhi, "linear_allocator");
                fill(b);
                sim::Quiet q;
                linear_used = std::max<size_t>(linear_used, (size_t)(b.p + n - llo));
                line.push_back(b);
                break;
            }
            case LIN_RESET:
                lin.reset();
                linear_used = 0;
                for (auto& b : line) used.del(b.p);
                {
                    sim::Quiet q;
                    line.clear();
                }
                break;
            }
            for (auto& b : stack) verify(b, op_name[o.k]);
            for (auto& b : line) verify(b, op_name[o.k]);
            sim::state(st->remaining() * 31 + linear_used);
        }
        while (!stack.empty()) pop();
        if (st->remaining() != size) sim::fail("oracle:remaining", "%zu bytes are left after releasing everything instead of %zu", st->remaining(), size);
    }
}

// ---- temporary memory of threads ---------------------------------------------------------------------------------
template<size_t N, size_t Al>
struct alignas(Al) Item {
    char c[N];
};
void gen_temp(Rng& g, Case& c) {
    int threads = (int)g.range(1, 3);
    c.p = { threads, g.range(1, 3), g.below(2) };
    int n = (int)g.range(3, 40);
    int64_t type = g.below(5);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = (int)g.pick(PUSH, PUSH, PUSH, POP, POP, FORK);
        o.a[0] = g.chance(1, 8) ? g.pick(1 << 18, 1 << 20, 3 << 20, 1 << 24, (int64_t)1 << 40) : g.chance(1, 3) ? g.range(1, 3) : g.range(1, 200);
        o.a[1] = g.chance(1, 2) ? type : g.below(5);
        o.a[2] = g.below(256);
        o.a[3] = g.below(threads + 1); // the last one: the main thread
        o.a[4] = g.range(1, 12);
        c.ops.push_back(o);
    }
}
template<typename G>
void with_item(int64_t t, G&& g) {
    switch (t) {
    case 0: return g.template operator()<Item<1, 1>>();
    case 1: return g.template operator()<Item<8, 8>>();
    case 2: return g.template operator()<Item<48, 16>>();
    case 3: return g.template operator()<Item<64, 64>>();
    default: return g.template operator()<Item<128, 128>>();
    }
}
struct Temp {
    Blocks used;
    uint64_t pushed = 0;
    std::map<int, size_t> in_use; // by thread, with an allowance for every block
};
struct TempStack {
    Temp& w;
    struct E {
        Block b;
        int type;
        size_t n;
    };
    std::vector<E> st;
    void push(const Op& o) {
        with_item(o.a[1], [&]<class T>() {
            size_t n = std::max<size_t>(1, (size_t)o.a[0] / (o.a[0] > 1000 ? sizeof(T) : 1)), bytes = n * sizeof(T);
            co_ecs::detail::temp_allocator<T> al;
            T* p;
            uint64_t before = sim::injected(sim::K_ALLOC);
            try {
                sim::Allow a(F);
                p = al.allocate(n);
            } catch (const std::bad_alloc&) {
                sim::Quiet q;
                if (sim::injected(sim::K_ALLOC) == before && w.in_use[sim::tid()] + bytes + 4096 < 8u << 20)
                    sim::fail("oracle:failed", "allocating %zu bytes of temporary memory failed with %zu bytes in use", bytes, w.in_use[sim::tid()]);
                sim::probe(0);
                return;
            }
            Block b{ (char*)p, bytes, alignof(T), 0, (unsigned char)o.a[2] };
            w.used.add(p, bytes, alignof(T), nullptr, nullptr, "temp_allocator");
            fill(b);
            sim::Quiet q;
            st.push_back({ b, (int)o.a[1], n });
            w.in_use[sim::tid()] += bytes + 256;
            w.pushed++;
        });
    }
    void pop() {
        if (st.empty()) return;
        E e = st.back();
        verify(e.b, "release");
        w.used.del(e.b.p);
        with_item(e.type, [&]<class T>() { co_ecs::detail::temp_allocator<T>().deallocate((T*)e.b.p, e.n); });
        sim::Quiet q;
        w.in_use[sim::tid()] -= e.b.n + 256;
        st.pop_back();
    }
    void check() {
        for (auto& e : st) verify(e.b, "another operation");
    }
};
void run_temp(const Case& c) {
    int threads = (int)c.p[0];
    sim::set_hw_threads(2);
    Temp w;
    {
        std::optional<co_ecs::thread_pool> pool;
        pool.emplace((size_t)c.p[1]);
        auto body = [&](int me) {
            TempStack s{ w };
            for (auto& o : c.ops) {
                if (o.a[3] % (threads + 1) != me) continue;
                if (o.k == PUSH) s.push(o);
                else if (o.k == POP) s.pop();
                else if (me == threads) { // parallel_for uses temporary memory itself, and so do the functions it applies
                    std::vector<int> idx((size_t)o.a[4], 1);
                    auto one = [&](int&) {
                        TempStack t{ w };
                        t.push(o);
                        sim::point();
                        t.push(o);
                        t.check();
                        t.pop();
                        t.pop();
                    };
                    try {
                        co_ecs::parallel_for(idx, one);
                    } catch (const std::bad_alloc&) { // all in use
                    }
                    sim::probe(2);
                }
                s.check();
                sim::point();
            }
            if (!c.p[2])
                while (!s.st.empty()) s.pop();
            sim::Quiet q;
            for (auto& e : s.st) w.used.del(e.b.p);
        };
        std::vector<std::thread> th;
        for (int i = 0; i < threads; i++) th.emplace_back(body, i);
        // parallel_for runs other work of the pool meanwhile, which releases what it has allocated
        body(threads);
        for (auto& t : th) t.join();
        sim::settle();
        sim::state(w.pushed);
    }
}
std::string show(const Case&, const Op& o) {
    char b[160];
    std::snprintf(b, sizeof b, "%s size=%lld align/type=%lld thread=%lld", op_name[o.k], (long long)o.a[0], (long long)o.a[1], (long long)o.a[3]);
    return b;
}
sim::Register r({ "C22", { { "buffers", 1, 0, gen_buffers, run_buffers, show, "blocks of all sizes and alignments from full and almost full buffers", sim::NO_RACE },
                           { "temporary", 1, SCHED | F, gen_temp, run_temp, show, "threads and parallel_for use temporary memory until it is exhausted", sim::HANG_OK } },
    { "allocation failed", "moved", "parallel_for" } });
} // namespace
