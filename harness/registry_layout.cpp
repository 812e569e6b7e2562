// C12: storage layout.  Many plain component types of different sizes and alignments, any subset of them per archetype,
// filled beyond the end of a chunk; every byte of every component belongs to the model.
#include <co_ecs/co_ecs.hpp>

#include "../sim/dsim.h"

#include <cstring>
#include <map>
#include <memory>
#include <set>

using co_ecs::entity;
using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

template<int I, size_t Size, size_t Align>
struct alignas(Align) Plain {
    static constexpr int index = I;
    unsigned char b[Size];
};
template<int N>
struct Filler { // uses up component ids
    char c;
};
template<int... N>
uint64_t use(std::integer_sequence<int, N...>) {
    return (0 + ... + co_ecs::component_id::value<Filler<N>>);
}

#define TYPES(X)                                                                                                                            \
    X(0, 1, 1) X(1, 2, 2) X(2, 3, 1) X(3, 4, 4) X(4, 5, 1) X(5, 6, 2) X(6, 7, 1) X(7, 8, 8) X(8, 12, 4) X(9, 16, 16) X(10, 24, 8) X(11, 31, 1) \
        X(12, 32, 32) X(13, 48, 16) X(14, 64, 64) X(15, 100, 4) X(16, 128, 128) X(17, 200, 8) X(18, 255, 1) X(19, 333, 1) X(20, 512, 16)     \
            X(21, 700, 4) X(22, 1000, 8) X(23, 2047, 1) X(24, 256, 256) X(25, 4090, 2)
constexpr int N = 26;
constexpr size_t size_of[N] = {
#define X(i, s, a) s,
    TYPES(X)
#undef X
};
constexpr size_t align_of[N] = {
#define X(i, s, a) a,
    TYPES(X)
#undef X
};
// ids of the first types, then others in between, so that sets of components differ in their second and third block only
uint64_t ids0 = co_ecs::component_id::value<Plain<3, 4, 4>> + co_ecs::component_id::value<Plain<20, 512, 16>> + use(std::make_integer_sequence<int, 70>());
uint64_t ids1 = co_ecs::component_id::value<Plain<0, 1, 1>> + co_ecs::component_id::value<Plain<14, 64, 64>>;

template<typename F>
void with(int t, F&& f) {
    switch (t) {
#define X(i, s, a) \
    case i: f.template operator()<Plain<i, s, a>>(); break;
        TYPES(X)
#undef X
    }
}

void fill(unsigned char* p, size_t n, uint64_t seed, int t) {
    uint64_t z = seed * 0x9e3779b97f4a7c15ull + (uint64_t)t * 0xbf58476d1ce4e5b9ull;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) z ^= z >> 29, z *= 0x94d049bb133111ebull;
        p[i] = (unsigned char)(z >> (i % 8 * 8));
    }
}

struct E {
    entity h;
    uint32_t mask = 0;
    uint64_t seed[N] = {};
};
struct World {
    co_ecs::registry reg[2];
    std::vector<E> ents[2];

    void set(int r, E& e, int t, uint64_t x) {
        with(t, [&]<class C>() {
            C c;
            fill(c.b, sizeof c.b, x, t);
            reg[r].get_entity(e.h).template set<C>(c);
        });
        e.mask |= 1u << t;
        e.seed[t] = x;
    }
    void remove(int r, E& e, int t) {
        with(t, [&]<class C>() { reg[r].get_entity(e.h).template remove<C>(); });
        e.mask &= ~(1u << t);
    }
    void check(const char* where) {
        sim::Quiet q;
        static unsigned char want[8192];
        for (int r = 0; r < 2; r++) {
            if (reg[r].size() != ents[r].size()) sim::fail("oracle:size", "registry has %zu entities instead of %zu (after %s)", reg[r].size(), ents[r].size(), where);
            std::map<uintptr_t, uintptr_t> ranges;
            const auto& c = reg[r];
            for (auto& e : ents[r]) {
                if (!c.alive(e.h)) sim::fail("oracle:not-alive", "entity (%u,%u) is not alive (after %s)", e.h.id(), e.h.generation(), where);
                uint32_t seen = 0;
                auto ref = c.get_entity(e.h);
                try {
                    for (int t = 0; t < N; t++)
                        with(t, [&]<class C>() {
                            if (ref.template has<C>() != bool(e.mask >> t & 1))
                                sim::fail("oracle:components", "entity (%u,%u) %s component of %zu bytes (after %s)", e.h.id(), e.h.generation(), e.mask >> t & 1 ? "lost a" : "has a stray", sizeof(C), where);
                            if (!(e.mask >> t & 1)) return;
                            const C& x = ref.template get<C>();
                            auto b = (uintptr_t)&x, en = b + sizeof(C);
                            if (b % alignof(C)) sim::fail("oracle:misaligned", "a component of %zu bytes is not aligned to %zu (after %s)", sizeof(C), alignof(C), where);
                            if (!sim::heap_valid(&x, sizeof(C))) sim::fail("oracle:out-of-bounds", "a component of %zu bytes is stored outside of allocated memory (after %s)", sizeof(C), where);
                            auto it = ranges.lower_bound(en);
                            if (it != ranges.begin() && (--it)->second > b) sim::fail("oracle:overlap", "two components share memory, one has %zu bytes (after %s)", sizeof(C), where);
                            ranges[b] = en;
                            fill(want, sizeof x.b, e.seed[t], t);
                            if (std::memcmp(want, x.b, sizeof x.b)) sim::fail("oracle:value", "a component of %zu bytes of entity (%u,%u) changed (after %s)", sizeof(C), e.h.id(), e.h.generation(), where);
                            seen++;
                        });
                } catch (const std::exception& x) {
                    sim::fail("oracle:failed", "reading entity (%u,%u) failed: %s (after %s)", e.h.id(), e.h.generation(), x.what(), where);
                }
            }
            size_t n = 0;
            std::set<std::pair<uint32_t, uint32_t>> live;
            for (auto& e : ents[r]) live.insert({ e.h.id(), e.h.generation() });
            c.view<const entity&>().each([&](const entity& h) {
                n++;
                if (!live.erase({ h.id(), h.generation() })) sim::fail("oracle:entities", "entity (%u,%u) is stored twice or should not be there (after %s)", h.id(), h.generation(), where);
            });
            if (n != ents[r].size()) sim::fail("oracle:entities", "%zu entities are stored instead of %zu (after %s)", n, ents[r].size(), where);
        }
    }
};

enum { NEW = 0, CLONE, DESTROY, ADD, REMOVE, MOVE, COPY, WRITE };
const char* const names[] = { "new entity", "clone", "destroy", "set", "remove", "move to other registry", "copy to other registry", "write" };

void gen(Rng& g, Case& c) {
    int families = (int)g.range(1, 3);
    size_t budget = g.pick(20000, 36000, 52000); // bytes, a bit more than one, two or three chunks
    for (int f = 0; f < families; f++) {
        uint32_t mask = 0;
        size_t sum = 8;
        int want = (int)g.range(1, g.chance(1, 4) ? 12 : 5);
        int lo = g.chance(2, 3) ? 8 : 0; // small entities only now and then: there are many of them in a chunk
        for (int i = 0; i < want; i++) {
            int t = (int)g.range(i == 0 ? lo : 0, N - 1);
            if (mask >> t & 1 || sum + size_of[t] + align_of[t] > 14000) continue;
            mask |= 1u << t, sum += size_of[t];
        }
        if (sum < 60) mask |= 1u << 15, sum += 100;
        int64_t n = (int64_t)(budget / sum / (size_t)families) + 2;
        Op o;
        o.k = NEW;
        o.a[0] = g.below(2), o.a[1] = mask, o.a[2] = g.below(1000000);
        c.ops.push_back(o);
        // clones of it, by groups so that a violation can be minimised
        while (n > 0) {
            Op k;
            k.k = CLONE;
            k.a[0] = o.a[0], k.a[1] = f, k.a[2] = std::min<int64_t>(n, g.range(1, 40)), k.a[3] = g.below(1000000);
            c.ops.push_back(k);
            n -= k.a[2];
        }
    }
    int n = (int)g.range(0, 24);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = (int)g.pick(DESTROY, DESTROY, ADD, ADD, REMOVE, MOVE, COPY, WRITE, CLONE);
        o.a[0] = g.below(2), o.a[1] = g.below(1000), o.a[2] = o.k == ADD || o.k == REMOVE ? g.below(N) : g.range(1, 12), o.a[3] = g.below(1000000);
        o.a[4] = g.chance(1, 3) ? g.range(2, 30) : 1;
        c.ops.push_back(o);
    }
    c.p = { g.pick(1, 4, 100) };
}

void run(const Case& c) {
    World w;
    int every = (int)c.p[0], step = 0;
    uint64_t x = 0;
    for (const Op& o : c.ops) {
        int r = (int)o.a[0] & 1;
        auto& es = w.ents[r];
        x = (uint64_t)o.a[3] * 977 + 1;
        try {
            switch (o.k) {
            case NEW: {
                E e;
                e.h = w.reg[r].create<>();
                for (int t = 0; t < N; t++)
                    if (o.a[1] >> t & 1) w.set(r, e, t, (uint64_t)o.a[2] + (uint64_t)t);
                es.push_back(e);
                break;
            }
            case CLONE:
                for (int64_t i = 0; i < o.a[2] && !es.empty(); i++) {
                    E e = es[(size_t)o.a[1] % es.size()];
                    if (e.mask == 0) break;
                    e.h = w.reg[r].get_entity(e.h).clone();
                    for (int t = 0; t < N; t++)
                        if (e.mask >> t & 1 && ((uint64_t)i + (uint64_t)t) % 3) w.set(r, e, t, x++);
                    es.push_back(e);
                }
                break;
            case DESTROY:
                for (int64_t i = 0; i < o.a[2] && !es.empty(); i++) {
                    size_t k = (size_t)(x + (uint64_t)i * 7) % es.size();
                    w.reg[r].destroy(es[k].h);
                    es.erase(es.begin() + (long)k);
                }
                break;
            case ADD:
            case REMOVE:
            case WRITE:
                for (int64_t i = 0; i < o.a[4] && !es.empty(); i++) {
                    E& e = es[(size_t)(x + (uint64_t)i) % es.size()];
                    int t = (int)(o.a[2] % N);
                    size_t sum = 600;
                    for (int k = 0; k < N; k++)
                        if (e.mask >> k & 1) sum += size_of[k] + align_of[k];
                    if (o.k == ADD && sum + size_of[t] < 16000) w.set(r, e, t, x++);
                    if (o.k == REMOVE) w.remove(r, e, t);
                    if (o.k == WRITE)
                        for (int k = 0; k < N; k++)
                            if (e.mask >> k & 1)
                                with(k, [&]<class C>() { fill(w.reg[r].get_entity(e.h).template get<C>().b, size_of[k], e.seed[k] = x++, k); });
                }
                break;
            default:
                for (int64_t i = 0; i < o.a[4] && !es.empty(); i++) {
                    size_t k = (size_t)(x + (uint64_t)i) % es.size();
                    E e = es[k];
                    if (o.k == MOVE) {
                        e.h = w.reg[r].get_entity(e.h).move(w.reg[1 - r]);
                        es.erase(es.begin() + (long)k);
                    } else {
                        e.h = w.reg[r].get_entity(e.h).copy(w.reg[1 - r]);
                    }
                    w.ents[1 - r].push_back(e);
                }
            }
        } catch (const std::exception& ex) {
            sim::fail("oracle:failed", "%s failed without a reason: %s", names[o.k], ex.what());
        }
        if (++step % every == 0) w.check(names[o.k]);
    }
    sim::settle();
    w.check("the whole history");
}

std::string show(const Case&, const Op& o) {
    char b[160];
    if (o.k == NEW) {
        std::string s = "registry " + std::to_string(o.a[0]) + ": new entity of sizes";
        for (int t = 0; t < N; t++)
            if (o.a[1] >> t & 1) s += " " + std::to_string(size_of[t]) + "/" + std::to_string(align_of[t]);
        return s;
    }
    std::snprintf(b, sizeof b, "registry %d: %s (%lld,%lld,%lld,%lld)", (int)o.a[0], names[o.k], (long long)o.a[1], (long long)o.a[2], (long long)o.a[3], (long long)o.a[4]);
    return b;
}

} // namespace

sim::Scenario layout_scenario() {
    return { "layout", 1, 0, gen, run, show, "archetypes of any subset of 26 plain types (1 to 4090 bytes, aligned to 1 to 256) filled beyond a chunk, every byte compared", sim::NO_RACE };
}
