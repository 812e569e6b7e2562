// two registries with a model of their content, and operations on them
#pragma once
#include "comps.h"

#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>

using namespace hc;
using sim::Case;
using sim::Op;
using sim::Rng;
using co_ecs::entity;

namespace {

enum {
    CREATE = 0, DESTROY, SET, GOI, REMOVE, CLONE, XCOPY, XMOVE, STALE, RESERVE, SYNC, FILL, MASS_CREATE, MASS_DESTROY, CHECK,
    ASSIGN, CMD, FLUSH, VIEW, RECREATE, THREAD_CMD, GROUP_MOVE, RELEASE, N_OPS
};
const char* const op_name[] = { "create", "destroy", "set", "get_or_insert", "remove", "clone", "copy to other registry", "move to other registry",
    "use a stale handle", "reserve", "sync", "fill a reserved entity", "create many", "destroy many", "check", "assign through reference",
    "record command", "flush", "iterate view", "replace registry", "record commands on a thread", "move many", "release a reserved entity" };

// ---- sets of components entities are created with ------------------------------------------------------------
template<typename... C>
struct Pack {
    static constexpr uint32_t mask = (0u | ... | (1u << C::id));
};
template<typename C>
struct Box { // keeps empty types at addresses of their own
    C c;
    char own = 0;
    explicit Box(int64_t x) : c(x) {}
};
int64_t val_of(int64_t x, int t) { return norm(t, x * 16 + t); }

#define PACKS(X)                                                                                                                          \
    X(Pack<>) X(Pack<A>) X(Pack<B>) X(Pack<A, B>) X(Pack<B, A>) X(Pack<G>) X(Pack<H>) X(Pack<K>) X(Pack<A, Mo>) X(Pack<Mo, Byte, J>)        \
    X(Pack<Byte>) X(Pack<Byte, S3, D32>) X(Pack<D32, H>) X(Pack<W16, Byte, A>) X(Pack<Tg>) X(Pack<Tg, A>) X(Pack<Tg2, Tg3, Byte, B>)         \
    X(Pack<D128>) X(Pack<D128, Byte, G>) X(Pack<J, G, B>) X(Pack<L>) X(Pack<H, Byte>) X(Pack<A, B, D32, Byte, Tg, G, Mo, J, S3, W16>)         \
    X(Pack<K, L>) X(Pack<J>) X(Pack<G, A>)

constexpr uint32_t pack_masks[] = {
#define X(...) __VA_ARGS__::mask,
    PACKS(X)
#undef X
};
constexpr int NPACKS = sizeof(pack_masks) / sizeof(*pack_masks);

struct Cfg {
    bool handles = false, content = false, faults = false, life = false, views = false;
};

struct Ent {
    entity h;
    bool alive = true;
    uint32_t mask = 0;
    int64_t val[NT] = {};
};
struct Side {
    std::unique_ptr<co_ecs::registry> reg;
    std::vector<Ent> ents;                            // live ones
    std::vector<entity> dead;                         // handles of destroyed entities of this registry
    std::vector<entity> pend;                         // reserved, not filled
    std::vector<co_ecs::placeholder_entity> pendp;
    std::set<std::pair<uint32_t, uint32_t>> issued;
};

constexpr unsigned FAULTS = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);

struct World {
    Cfg cfg;
    Side s[2];
    uint64_t failures = 0;

    // -- running an operation that may fail ---------------------------------------------------------------------
    // returns whether it succeeded; fails the run if it failed without a cause or succeeded although it cannot
    enum Expect { MAY, MUST_FAIL };
    template<typename F>
    bool attempt(const char* what, Expect ex, F&& f) {
        uint64_t before = sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW);
        bool ok = true, foreign = false;
        char msg[80] = "unknown exception";
        try {
            std::optional<sim::Allow> al;
            if (cfg.faults) al.emplace(FAULTS);
            f();
        } catch (const std::exception& e) {
            ok = false;
            sim::Quiet q;
            std::snprintf(msg, sizeof msg, "%s", e.what());
        } catch (...) {
            ok = false;
            foreign = true;
        }
        bool inj = sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW) != before;
        if (ok && ex == MUST_FAIL) sim::fail("oracle:not-reported", "%s: an operation that cannot succeed reported no error", what);
        if (!ok && ex == MAY && !inj) sim::fail("oracle:failed", "%s: failed without a reason: %s", what, msg);
        if (!ok) {
            failures++;
            sim::probe(inj ? 0 : 1);
            if (cfg.content || cfg.handles) check(what);
        }
        (void)foreign;
        return ok;
    }

    // -- bookkeeping ----------------------------------------------------------------------------------------------
    void issue(int r, entity h, const char* how) {
        sim::Quiet q;
        if (!s[r].issued.insert({ h.id(), h.generation() }).second)
            sim::fail("oracle:handle-reused", "%s returned a handle (%u,%u) that was handed out before", how, h.id(), h.generation());
        if (!s[r].reg->alive(h)) sim::fail("oracle:not-alive", "the handle (%u,%u) returned by %s is not alive", h.id(), h.generation(), how);
    }
    Ent* pick(int r, int64_t i) {
        sim::Quiet q;
        return s[r].ents.empty() ? nullptr : &s[r].ents[(size_t)i % s[r].ents.size()];
    }
    void add(int r, entity h, uint32_t mask, const int64_t* val) {
        sim::Quiet q;
        Ent e;
        e.h = h;
        e.mask = mask;
        for (int t = 0; t < NT; t++)
            if (mask >> t & 1) e.val[t] = val[t];
        s[r].ents.push_back(e);
    }
    void kill(int r, Ent* e) {
        sim::Quiet q;
        s[r].dead.push_back(e->h);
        s[r].ents.erase(s[r].ents.begin() + (e - s[r].ents.data()));
    }

    // a handle the registry never returned: of a generation far in the future, of a known or an unknown slot
    entity never_issued(int r, int64_t x) {
        uint32_t id = 0, past = 0;
        for (auto& i : s[r].issued) past = std::max(past, i.first + 1);
        switch (x % 4) {
        case 0: id = past; break;
        case 1: id = past + (uint32_t)(x / 4 % 70); break;
        case 2: id = past + 100000; break;
        default: id = past ? (uint32_t)(x / 4) % past : 0;
        }
        return entity{ id, (1u << 20) + (uint32_t)(x % 7) };
    }

    // -- oracle ---------------------------------------------------------------------------------------------------
    void check_handles(int r, const char* where) {
        sim::Quiet q;
        auto& S = s[r];
        std::set<std::pair<uint32_t, uint32_t>> live;
        for (auto& e : S.ents) live.insert({ e.h.id(), e.h.generation() });
        for (auto& e : S.ents)
            if (!S.reg->alive(e.h)) sim::fail("oracle:not-alive", "entity (%u,%u) was not destroyed but is not alive (after %s)", e.h.id(), e.h.generation(), where);
        for (auto& h : S.dead)
            if (S.reg->alive(h)) sim::fail("oracle:revived", "the handle (%u,%u) of a destroyed entity is alive (after %s)", h.id(), h.generation(), where);
        for (int64_t k = 0; k < 4; k++) {
            entity h = never_issued(r, k + (int64_t)S.ents.size());
            if (S.reg->alive(h)) sim::fail("oracle:revived", "the handle (%u,%u), which was never handed out, is alive (after %s)", h.id(), h.generation(), where);
        }
        if (S.reg->alive(entity::invalid()) || S.reg->alive(entity{})) sim::fail("oracle:revived", "the invalid handle is alive (after %s)", where);
    }
    void check_content(int r, const char* where) {
        sim::Quiet q;
        auto& S = s[r];
        auto& reg = *S.reg;
        const auto& creg = *S.reg;
        if (reg.size() != S.ents.size()) sim::fail("oracle:size", "registry has %zu entities instead of %zu (after %s)", reg.size(), S.ents.size(), where);
        if (reg.empty() != S.ents.empty()) sim::fail("oracle:size", "empty() is wrong (after %s)", where);
        std::map<uintptr_t, uintptr_t> ranges; // begin -> end
        for (auto& e : S.ents) {
            try {
                auto ref = reg.get_entity(e.h);
                auto cref = creg.get_entity(e.h);
                const void* addr[NT] = {};
                for (int t = 0; t < NT; t++)
                    with_type(t, [&]<class C>() {
                        bool want = e.mask >> t & 1;
                        if (reg.template has<C>(e.h) != want || ref.template has<C>() != want || cref.template has<C>() != want)
                            sim::fail("oracle:components", "entity (%u,%u) %s component %s (after %s)", e.h.id(), e.h.generation(), want ? "lost" : "has a stray", type_label(t), where);
                        if (!want) return;
                        const C& c = cref.template get<C>();
                        addr[t] = &c;
                        if ((uintptr_t)&c % alignof(C)) sim::fail("oracle:misaligned", "component %s is stored at a misaligned address (after %s)", type_label(t), where);
                        if (&ref.template get<C>() != &c) sim::fail("oracle:components", "const and non-const access give different components (after %s)", where);
                        if (!sim::heap_valid(&c, sizeof(C))) sim::fail("oracle:out-of-bounds", "component %s is stored outside of allocated memory (after %s)", type_label(t), where);
                        auto b = (uintptr_t)&c, en = b + sizeof(C);
                        auto it = ranges.lower_bound(en);
                        if (it != ranges.begin() && (--it)->second > b) sim::fail("oracle:overlap", "two components share memory, one of them %s (after %s)", type_label(t), where);
                        ranges[b] = en;
                        int64_t v = c.value();
                        if (v != e.val[t])
                            sim::fail("oracle:value", "component %s of entity (%u,%u) is %lld instead of %lld (after %s)", type_label(t), e.h.id(), e.h.generation(), (long long)v, (long long)e.val[t], where);
                    });
                more_reads(ref, cref, creg, e, addr, where);
                uint32_t seen = 0;
                auto look = [&](const co_ecs::component_meta& m, const void* p) {
                    for (int t = 0; t < NT; t++)
                        with_type(t, [&]<class C>() {
                            if (!(m == co_ecs::component_meta::of<C>())) return;
                            if (seen >> t & 1 || addr[t] != p) sim::fail("oracle:visit", "visiting an entity gives component %s twice or at a wrong address (after %s)", type_label(t), where);
                            seen |= 1u << t;
                        });
                };
                cref.visit(look);
                if (seen != e.mask) sim::fail("oracle:visit", "visiting an entity does not give exactly its components (after %s)", where);
                seen = 0;
                ref.visit([&](const co_ecs::component_meta& m, void* p) { look(m, p); });
                if (seen != e.mask) sim::fail("oracle:visit", "visiting an entity does not give exactly its components (after %s)", where);
            } catch (const std::exception& x) {
                sim::fail("oracle:failed", "reading entity (%u,%u) failed: %s (after %s)", e.h.id(), e.h.generation(), x.what(), where);
            }
        }
        // exactly the live entities
        std::set<std::pair<uint32_t, uint32_t>> live, seen;
        for (auto& e : S.ents) live.insert({ e.h.id(), e.h.generation() });
        creg.view<const entity&>().each([&](const entity& h) {
            if (!seen.insert({ h.id(), h.generation() }).second) sim::fail("oracle:duplicate", "entity (%u,%u) is stored twice (after %s)", h.id(), h.generation(), where);
        });
        if (seen != live) sim::fail("oracle:entities", "the registry does not store exactly the live entities (after %s)", where);
    }
    // reading several components at once, the archetype, and conversions
    void more_reads(co_ecs::entity_ref ref, co_ecs::const_entity_ref cref, const co_ecs::registry& creg, const Ent& e, const void* const* addr, const char* where) {
        auto wrong = [&](const char* what) { sim::fail("oracle:components", "%s is wrong for entity (%u,%u) (after %s)", what, e.h.id(), e.h.generation(), where); };
        if (!ref.alive() || !cref.alive() || (entity)ref != e.h || (entity)cref != e.h || !(bool)ref || !(bool)cref) wrong("an entity reference");
        auto pair = [&]<class C, class D>() {
            bool want = (e.mask >> C::id & 1) && (e.mask >> D::id & 1);
            if (ref.template has<C, D>() != want || cref.template has<C, D>() != want || creg.template has<C, D>(e.h) != want) wrong("has() of two components");
            for (int way = 0; way < 3; way++) {
                if (!want && e.h.id() % 24 != (unsigned)way * 8 + C::id % 8) continue; // exceptions are slow
                const void *c = nullptr, *d = nullptr;
                try {
                    if (way == 0) {
                        auto [x, y] = ref.template get<C, D>();
                        c = &x, d = &y;
                    } else if (way == 1) {
                        auto [x, y] = std::as_const(ref).template get<C, D>();
                        c = &x, d = &y;
                    } else {
                        auto [x, y] = creg.get_entity_const(e.h).template get<C, D>();
                        c = &x, d = &y;
                    }
                } catch (const std::exception&) {
                    if (want) throw;
                    continue;
                }
                if (!want || c != addr[C::id] || d != addr[D::id]) wrong("get() of two components");
            }
        };
        pair.template operator()<A, B>();
        pair.template operator()<Byte, A>();
        pair.template operator()<J, Mo>();
        pair.template operator()<G, D32>();
        const auto& comps = ref.archetype().components();
        uint32_t m = 0;
        size_t n = 0;
        for (const auto& meta : comps) {
            n++;
            for (int t = 0; t < NT; t++)
                with_type(t, [&]<class C>() {
                    if (meta == co_ecs::component_meta::of<C>()) {
                        m |= 1u << t;
                        if (meta.type->size != sizeof(C) || meta.type->align != alignof(C)) wrong("the size of a component type");
                    }
                });
        }
        if (m != e.mask || n != comps.size() || n != (size_t)__builtin_popcount(e.mask) || &cref.archetype() != &ref.archetype()) wrong("archetype()");
    }
    void check(const char* where) {
        for (int r = 0; r < 2; r++) {
            if (cfg.handles || cfg.content) check_handles(r, where);
            if (cfg.content) check_content(r, where);
        }
    }

    // -- operations -----------------------------------------------------------------------------------------------
    template<typename... C>
    entity create_pack(int r, Pack<C...>, int64_t x, bool& ok, uint32_t mask) {
        std::tuple<Box<C>...> tmp{ Box<C>(val_of(x, C::id))... };
        entity h = entity::invalid();
        ok = attempt("create", fits(mask) ? MAY : MUST_FAIL, [&] { h = s[r].reg->template create<C...>(std::move(std::get<Box<C>>(tmp).c)...); });
        return h;
    }
    bool create(int r, int64_t pack, int64_t x, const char* how) {
        int p = (int)(pack % NPACKS), i = 0;
        bool ok = false;
        entity h = entity::invalid();
#define X(...)                                                                                                                            \
    if (i++ == p) h = create_pack(r, __VA_ARGS__{}, x, ok, pack_masks[p]);
        PACKS(X)
#undef X
        if (!ok) return false;
        issue(r, h, how);
        int64_t v[NT];
        for (int t = 0; t < NT; t++) v[t] = val_of(x, t);
        add(r, h, pack_masks[p], v);
        return true;
    }
    void destroy(int r, Ent* e, bool via_ref) {
        entity h = e->h;
        bool ok = attempt("destroy", MAY, [&] {
            if (via_ref) s[r].reg->get_entity(h).destroy();
            else s[r].reg->destroy(h);
        });
        if (ok) kill(r, e);
    }
    void set(int r, Ent* e, int t, int64_t x, int how) {
        entity h = e->h;
        bool may = (e->mask >> t & 1) || fits(e->mask | 1u << t);
        with_type(t, [&]<class C>() {
            int64_t v = val_of(x, t);
            bool ok = false;
            if (how == 0) {
                ok = attempt("set", may ? MAY : MUST_FAIL, [&] { s[r].reg->get_entity(h).template set<C>(v); });
            } else if (how == 1) {
                C tmp(v);
                ok = attempt("set", may ? MAY : MUST_FAIL, [&] { s[r].reg->get_entity(h).template set<C>(std::move(tmp)); });
            } else {
                // from a component in the registry (possibly the same one)
                Ent* src = nullptr;
                {
                    sim::Quiet q;
                    for (size_t i = 0; i < s[r].ents.size() && !src; i++) {
                        Ent& c = s[r].ents[((size_t)x + i) % s[r].ents.size()];
                        if (c.mask >> t & 1) src = &c;
                    }
                }
                if (!src) return;
                v = src->val[t];
                if constexpr (C::copyable) {
                    const C& from = std::as_const(*s[r].reg).get_entity(src->h).template get<C>();
                    ok = attempt("set from a component of the registry", may ? MAY : MUST_FAIL, [&] { s[r].reg->get_entity(h).template set<C>(from); });
                } else return;
            }
            if (ok) e->mask |= 1u << t, e->val[t] = v;
        });
    }
    void get_or_insert(int r, Ent* e, int t, int64_t x) {
        entity h = e->h;
        bool had = e->mask >> t & 1;
        bool may = had || fits(e->mask | 1u << t);
        with_type(t, [&]<class C>() {
            int64_t v = val_of(x, t), got = -1;
            bool ok = attempt("get_or_insert", may ? MAY : MUST_FAIL, [&] { got = s[r].reg->get_entity(h).template get_or_insert<C>(v).value(); });
            if (!ok) return;
            if (!had) e->mask |= 1u << t, e->val[t] = v;
            if (got != e->val[t] && cfg.content) sim::fail("oracle:value", "get_or_insert returned component %s with value %lld instead of %lld", type_label(t), (long long)got, (long long)e->val[t]);
        });
    }
    void remove(int r, Ent* e, int t) {
        entity h = e->h;
        with_type(t, [&]<class C>() {
            if (attempt("remove", MAY, [&] { s[r].reg->get_entity(h).template remove<C>(); })) e->mask &= ~(1u << t);
        });
    }
    void duplicate(int r, int to, Ent* e, int how) {
        entity h = e->h, n = entity::invalid();
        bool may = can_copy(e->mask);
        bool ok = attempt(r == to ? "clone" : "copy", may ? MAY : MUST_FAIL, [&] {
            if (r == to) n = s[r].reg->get_entity(h).clone();
            else if (how) n = std::as_const(*s[r].reg).get_entity(h).copy(*s[to].reg);
            else n = s[r].reg->get_entity(h).copy(*s[to].reg);
        });
        if (!ok) return;
        issue(to, n, "clone/copy");
        e = find(r, h);
        Ent c = *e;
        add(to, n, c.mask, c.val);
    }
    void transfer(int r, Ent* e) {
        entity h = e->h, n = entity::invalid();
        if (!attempt("move", MAY, [&] { n = s[r].reg->get_entity(h).move(*s[1 - r].reg); })) return;
        issue(1 - r, n, "move");
        e = find(r, h);
        Ent c = *e;
        kill(r, e);
        add(1 - r, n, c.mask, c.val);
    }
    Ent* find(int r, entity h) {
        for (auto& e : s[r].ents)
            if (e.h == h) return &e;
        return nullptr;
    }
    void fill(int to, int64_t which, Ent* e, int from, int how) {
        auto& S = s[to];
        if (S.pend.empty()) return;
        size_t i = (size_t)which % S.pend.size();
        auto ph = S.pendp[i];
        entity h = e->h;
        if (!attempt("sync", MAY, [&] { S.reg->sync(); })) return;
        // 0: copy/clone, 1: move (from the other registry)
        bool mv = from != to && how;
        bool ok = attempt("fill a reserved entity", mv || can_copy(e->mask) ? MAY : MUST_FAIL, [&] {
            auto ref = s[from].reg->get_entity(h);
            if (mv) ref.move(*S.reg, ph);
            else if (from == to) ref.clone(ph);
            else ref.copy(*S.reg, ph);
        });
        if (!ok) return;
        sim::Quiet q;
        Ent c = *find(from, h);
        entity n = S.pend[i];
        S.pend.erase(S.pend.begin() + i);
        S.pendp.erase(S.pendp.begin() + i);
        if (!S.reg->alive(n)) sim::fail("oracle:not-alive", "a reserved entity is not alive after it was filled");
        if (mv) kill(from, find(from, h));
        add(to, n, c.mask, c.val);
    }
    void stale(int r, int64_t which, int api, int t, int64_t x) {
        auto& S = s[r];
        entity h = entity::invalid();
        {
            sim::Quiet q;
            int64_t k = which % (int64_t)(S.dead.size() + 4);
            if (k < (int64_t)S.dead.size()) h = S.dead[(size_t)k];
            else if (k == (int64_t)S.dead.size()) h = entity{};
            else if (k > (int64_t)S.dead.size() + 1) h = never_issued(r, x);
        }
        auto ref = S.reg->get_entity(h);
        auto cref = std::as_const(*S.reg).get_entity(h);
        if (ref.alive() || cref.alive()) sim::fail("oracle:revived", "a stale handle is alive");
        with_type(t, [&]<class C>() {
            char what[60];
            static const char* names[] = { "destroy", "set", "set with an object", "get", "get (const)", "get two", "has", "remove", "get_or_insert", "clone", "copy", "move", "visit", "visit (const)", "archetype", "destroy by reference", "copy (const)" };
            std::snprintf(what, sizeof what, "%s through a stale handle", names[api]);
            uint32_t sink = 0;
            attempt(what, MUST_FAIL, [&] {
                switch (api) {
                case 0: S.reg->destroy(h); break;
                case 1: ref.template set<C>(x); break;
                case 2: {
                    C tmp(x);
                    ref.template set<C>(std::move(tmp));
                    break;
                }
                case 3: sink += ref.template get<C>().value() != 0; break;
                case 4: sink += cref.template get<C>().value() != 0; break;
                case 5: {
                    auto [a, b] = ref.template get<C, Pad<0>>();
                    sink += a.value() != 0;
                    break;
                }
                case 6: sink += ref.template has<C>(); break;
                case 7: ref.template remove<C>(); break;
                case 8: sink += ref.template get_or_insert<C>(x).value() != 0; break;
                case 9: sink += ref.clone().alive(); break;
                case 10: sink += ref.copy(*s[1 - r].reg).alive(); break;
                case 11: sink += ref.move(*s[1 - r].reg).alive(); break;
                case 12: ref.visit([&](auto&&...) { sink++; }); break;
                case 13: cref.visit([&](auto&&...) { sink++; }); break;
                case 14: sink += ref.archetype().components().size() > 0; break;
                case 15: ref.destroy(); break;
                default: sink += cref.copy(*s[1 - r].reg).alive(); break;
                }
            });
        });
    }
    void assign(int r, Ent* e, int t, int64_t x, int how) {
        entity h = e->h;
        bool has = e->mask >> t & 1;
        with_type(t, [&]<class C>() {
            int64_t v = val_of(x, t);
            bool ok = attempt("get", has ? MAY : MUST_FAIL, [&] {
                if (how == 0) s[r].reg->get_entity(h).template get<C>().assign(v);
                else if (how == 1) {
                    C tmp(v);
                    C& ref = s[r].reg->get_entity(h).template get<C>();
                    ref = std::move(tmp);
                } else {
                    s[r].reg->get_entity(h).visit([&](const co_ecs::component_meta& m, void* p) {
                        if (m == co_ecs::component_meta::of<C>()) static_cast<C*>(p)->assign(v);
                    });
                    if (!has) throw std::runtime_error("no such component");
                }
            });
            if (ok) e->val[t] = v;
        });
    }
    // -- commands (no content oracle here) ------------------------------------------------------------------------
    void refresh(int r) { // after commands the model is taken from the registry: only life is checked
        sim::Quiet q;
        auto& S = s[r];
        for (auto& e : S.ents)
            if (!S.reg->alive(e.h)) S.dead.push_back(e.h);
        S.ents.clear();
        std::as_const(*S.reg).view<const entity&>().each([&](const entity& h) {
            Ent e;
            e.h = h;
            try {
                for (int t = 0; t < NT; t++)
                    with_type(t, [&]<class C>() {
                        if (!S.reg->template has<C>(h)) return;
                        e.mask |= 1u << t;
                        e.val[t] = std::as_const(*S.reg).get_entity(h).template get<C>().value();
                    });
            } catch (...) {
                return;
            }
            S.ents.push_back(e);
        });
    }
    void command(int64_t kind, int64_t i, int t, int64_t x) {
        auto& S = s[0];
        entity h = entity::invalid();
        Ent* e = pick(0, i);
        if (e) h = e->h;
        attempt_any([&] {
            co_ecs::command_writer w(*S.reg);
            switch (kind % 6) {
            case 0: {
                auto c = w.create<A, Byte>(A(x), Byte(x));
                if (x & 1) c.set<B>(x);
                if (x & 2) c.set<J>(J(x));
                if (x & 4) c.destroy();
                break;
            }
            case 1: with_type(t, [&]<class C>() { w.get_entity(h).template set<C>(x); }); break;
            case 2: with_type(t, [&]<class C>() { w.get_entity(h).template remove<C>(); }); break;
            case 3: w.get_entity(h).clone().template set<Mo>(x); break;
            case 4: w.destroy(h); break;
            default: w.create<Mo, H>(Mo(x), H(x)).clone(); break; // cloning it fails
            }
        });
    }
    template<typename F>
    bool attempt_any(F&& f) {
        try {
            std::optional<sim::Allow> al;
            if (cfg.faults) al.emplace(FAULTS);
            f();
            return true;
        } catch (...) {
            sim::probe(0);
            return false;
        }
    }
    void flush(bool faults) {
        for (int i = 0; i < 2000; i++) {
            bool ok;
            if (faults) ok = attempt_any([&] { co_ecs::command_buffer::flush(*s[0].reg); });
            else {
                ok = true;
                try {
                    co_ecs::command_buffer::flush(*s[0].reg);
                } catch (...) {
                    ok = false;
                }
            }
            if (ok) break;
        }
        refresh(0);
    }
    // -- views ----------------------------------------------------------------------------------------------------
    struct Seen {
        World& w;
        int r;
        uint32_t mask;
        const char* how;
        std::set<size_t> got;
        // entry: pointers by component type, and the entity handle if the view has it
        void entry(const std::array<const void*, NT>& p, const entity* h) {
            sim::Quiet q;
            auto& S = w.s[r];
            for (size_t i = 0; i < S.ents.size(); i++) {
                auto& e = S.ents[i];
                if ((e.mask & mask) != mask) continue;
                bool any = false, all = true;
                for (int t = 0; t < NT; t++) {
                    if (!(mask >> t & 1)) continue;
                    const void* a = w.address(r, e.h, t);
                    (a == p[(size_t)t] ? any : all) = a == p[(size_t)t];
                }
                if (mask == 0) any = h && *h == e.h;
                if (!any) continue;
                if (!all) sim::fail("oracle:mixed", "%s gives components of different entities in one entry", how);
                if (h && *h != e.h) sim::fail("oracle:mixed", "%s gives the components of one entity with the handle of another", how);
                if (!got.insert(i).second) sim::fail("oracle:view-twice", "%s gives an entity twice", how);
                return;
            }
            sim::fail("oracle:view-stray", "%s gives something that is not a live entity with the requested components", how);
        }
        void done() {
            sim::Quiet q;
            size_t want = 0;
            for (auto& e : w.s[r].ents) want += (e.mask & mask) == mask;
            if (got.size() != want) sim::fail("oracle:view-missing", "%s gives %zu of %zu entities", how, got.size(), want);
        }
    };
    const void* address(int r, entity h, int t) {
        return with_type(t, [&]<class C>() -> const void* { return &std::as_const(*s[r].reg).get_entity(h).template get<C>(); });
    }
    template<typename T>
    static void put(std::array<const void*, NT>& p, const entity*& h, T& x) {
        if constexpr (std::is_same_v<std::remove_const_t<T>, entity>) h = &x;
        else p[std::remove_const_t<T>::id] = &x;
    }
    template<typename T>
    static constexpr uint32_t bit() {
        if constexpr (std::is_same_v<std::remove_cvref_t<T>, entity>) return 0;
        else return 1u << std::remove_cvref_t<T>::id;
    }
    // all ways of iterating one kind of view
    template<typename... Args>
    void use_view(co_ecs::view<Args...>& v, int r, int how, int64_t x, bool fresh) {
        constexpr uint32_t mask = (0u | ... | bit<Args>());
        static const char* names[] = { "iterating a view", "view.each(function)", "view.chunks()", "view.single()", "registry.each(function)", "registry.single()", "a nested iteration", "modifying through a view" };
        Seen seen{ *this, r, mask, names[how], {} };
        auto take = [&](auto&... c) {
            std::array<const void*, NT> p{};
            const entity* h = nullptr;
            (put(p, h, c), ...);
            seen.entry(p, h);
        };
        auto any = [&] {
            sim::Quiet q;
            for (auto& e : s[r].ents)
                if ((e.mask & mask) == mask) return true;
            return false;
        };
        (void)fresh;
        switch (how) {
        case 0:
            for (auto entry : v.each()) std::apply(take, entry);
            seen.done();
            break;
        case 1:
            v.each([&](Args... args) { take(args...); });
            seen.done();
            break;
        case 2:
            for (auto chunk : v.chunks()) {
                for (auto entry : chunk) std::apply(take, entry);
                // a chunk can be iterated again
                size_t a = 0, b = 0;
                for (auto it = chunk.begin(); it != chunk.end(); it++) a++;
                for (auto it = chunk.begin(); it < chunk.end(); ++it) b++;
                if (a != b) sim::fail("oracle:view-missing", "iterating a chunk twice gives different numbers of entities");
            }
            seen.done();
            break;
        case 3: {
            auto o = v.single();
            if (o.has_value() != any()) sim::fail("oracle:view-missing", "single() %s", o.has_value() ? "found something in an empty view" : "found nothing");
            if (o) std::apply(take, *o);
            break;
        }
        case 4:
            s[r].reg->each([&](Args... args) { take(args...); });
            seen.done();
            break;
        case 5: {
            auto o = s[r].reg->template single<Args...>();
            if (o.has_value() != any()) sim::fail("oracle:view-missing", "registry.single() %s", o.has_value() ? "found something although nothing matches" : "found nothing");
            if (o) std::apply(take, *o);
            break;
        }
        case 6: {
            size_t n = 0, m = 0;
            for (auto entry : v.each()) {
                std::apply(take, entry);
                n++;
                if (n > 3) continue;
                m = 0;
                for (auto other : v.each()) (void)other, m++;
            }
            seen.done();
            if (n && n <= 3 && n != m) sim::fail("oracle:view-missing", "a nested iteration gives %zu of %zu entities", m, n);
            break;
        }
        default: {
            v.each([&](Args... args) {
                take(args...);
                (modify(args, x), ...);
            });
            seen.done();
            sim::Quiet q;
            for (auto& e : s[r].ents) {
                if ((e.mask & mask) != mask) continue;
                auto upd = [&]<typename T>(std::type_identity<T>) {
                    if constexpr (!std::is_same_v<std::remove_cvref_t<T>, entity>) {
                        using C = std::remove_cvref_t<T>;
                        if constexpr (!std::is_const_v<std::remove_reference_t<T>>) e.val[C::id] = val_of(x, C::id);
                        if (std::as_const(*s[r].reg).get_entity(e.h).template get<C>().value() != e.val[C::id])
                            sim::fail("oracle:value", "what was written through a view is not in the registry");
                    }
                };
                (upd(std::type_identity<Args>{}), ...);
            }
        }
        }
        sim::probe(2);
    }
    template<typename T>
    static void modify(T& c, int64_t x) {
        if constexpr (!std::is_const_v<T>) c.assign(val_of(x, T::id));
    }
    // views kept for the whole run
    template<typename... T>
    struct KeptViews {
        std::tuple<T...> v;
        explicit KeptViews(co_ecs::registry& r) : v(T(r)...) {}
    };
    using Views = KeptViews<co_ecs::view<A&>, co_ecs::view<const A&>, co_ecs::view<const entity&>, co_ecs::view<B&, const entity&>, co_ecs::view<const entity&, A&, B&>,
        co_ecs::view<const Byte&, const Tg&>, co_ecs::view<G&, const A&>, co_ecs::view<const H&, const entity&>, co_ecs::view<Mo&, J&>, co_ecs::view<D32&, Byte&>,
        co_ecs::view<const D128&>, co_ecs::view<Tg2&, const Tg3&>, co_ecs::view<K&>, co_ecs::view<const W16&, const A&, const Byte&>, co_ecs::view<G&>>;
    template<typename... Args>
    static uint32_t mask_of(std::type_identity<co_ecs::view<Args...>>) {
        auto one = []<typename T>(std::type_identity<T>) -> uint32_t {
            if constexpr (std::is_same_v<T, entity>) return 0;
            else return 1u << T::id;
        };
        return (0u | ... | one(std::type_identity<std::remove_cvref_t<Args>>{}));
    }
    template<typename... V>
    static std::vector<uint32_t> masks(std::type_identity<KeptViews<V...>>) {
        return { mask_of(std::type_identity<V>{})... };
    }
    std::unique_ptr<Views> kept[2];
    static constexpr int NVIEWS = 15;

    template<size_t... I>
    void dispatch(int r, int which, int how, int64_t x, bool fresh, std::index_sequence<I...>) {
        ((I == (size_t)which ? (fresh ? [&] { auto v = std::tuple_element_t<I, decltype(Views::v)>(*s[r].reg); use_view(v, r, how, x, true); }()
                                      : use_view(std::get<I>(kept[r]->v), r, how, x, false))
                             : (void)0),
            ...);
    }
    void view(int r, int which, int how, int64_t x, bool fresh) { dispatch(r, which, how, x, fresh, std::make_index_sequence<NVIEWS>{}); }

    // -- the run --------------------------------------------------------------------------------------------------
    explicit World(Cfg c) : cfg(c) {
        for (int r = 0; r < 2; r++) renew(r);
    }
    void renew(int r) {
        kept[r].reset();
        s[r].reg = std::make_unique<co_ecs::registry>();
        if (cfg.views) kept[r] = std::make_unique<Views>(*s[r].reg);
        sim::Quiet q;
        s[r].ents.clear();
        s[r].dead.clear();
        s[r].pend.clear();
        s[r].pendp.clear();
        s[r].issued.clear();
    }
    void step(const Op& o) {
        int r = (int)(o.a[0] & 1);
        int t = (int)(o.a[2] % NT);
        int64_t x = o.a[3];
        Ent* e = pick(r, o.a[1]);
        switch (o.k) {
        case CREATE: create(r, o.a[1], x, "create"); break;
        case DESTROY: if (e) destroy(r, e, x & 1); break;
        case SET: if (e) set(r, e, t, x, (int)(o.a[4] % 3)); break;
        case GOI: if (e) get_or_insert(r, e, t, x); break;
        case REMOVE: if (e) remove(r, e, t); break;
        case CLONE: if (e) duplicate(r, r, e, 0); break;
        case XCOPY: if (e) duplicate(r, 1 - r, e, (int)(x & 1)); break;
        case XMOVE: if (e) transfer(r, e); break;
        case STALE: stale(r, o.a[1], (int)(o.a[4] % 17), t, x); break;
        case RESERVE: {
            auto p = s[r].reg->reserve();
            entity h = p.get_entity();
            sim::Quiet q;
            if (!s[r].issued.insert({ h.id(), h.generation() }).second) sim::fail("oracle:handle-reused", "reserve returned a handle (%u,%u) that was handed out before", h.id(), h.generation());
            s[r].pend.push_back(h);
            s[r].pendp.push_back(p);
            break;
        }
        case RELEASE:
            if (!s[r].pend.empty()) {
                size_t i = (size_t)o.a[1] % s[r].pend.size();
                auto p = s[r].pendp[i];
                if (!attempt("release", MAY, [&] { s[r].reg->release(p); })) break;
                sim::Quiet q;
                s[r].dead.push_back(s[r].pend[i]);
                s[r].pend.erase(s[r].pend.begin() + i);
                s[r].pendp.erase(s[r].pendp.begin() + i);
            }
            break;
        case SYNC: attempt("sync", MAY, [&] { s[r].reg->sync(); }); break;
        case FILL: {
            int from = (int)(o.a[4] & 1);
            Ent* src = pick(from, o.a[5]);
            if (src) fill(r, o.a[1], src, from, (int)(x & 1));
            break;
        }
        case MASS_CREATE:
            for (int i = 0; i < o.a[4]; i++) create(r, o.a[1], x + i, "create");
            break;
        case MASS_DESTROY:
            for (int i = 0; i < o.a[4] && !s[r].ents.empty(); i++) {
                size_t n = s[r].ents.size();
                destroy(r, &s[r].ents[o.a[1] == 0 ? 0 : o.a[1] == 1 ? n - 1 : (size_t)(x + i * 7) % n], i & 1);
            }
            break;
        case GROUP_MOVE: // adds or removes one component for many entities, or moves many to the other registry
            for (int i = 0; i < o.a[4] && !s[r].ents.empty(); i++) {
                size_t n = s[r].ents.size();
                Ent* g = &s[r].ents[(size_t)(x + i) % n];
                if (o.a[1] % 3 == 0) set(r, g, t, x + i, 0);
                else if (o.a[1] % 3 == 1) remove(r, g, t);
                else transfer(r, g);
            }
            break;
        case CHECK: check("check"); break;
        case ASSIGN: if (e) assign(r, e, t, x, (int)(o.a[4] % 3)); break;
        case CMD: command(o.a[4], o.a[1], t, x); break;
        case FLUSH: flush(cfg.faults); break;
        case THREAD_CMD: {
            std::thread th([&] {
                for (int i = 0; i < 3; i++) command(o.a[4] + i, o.a[1] + i, (t + i) % NT, x + i);
            });
            th.join();
            break;
        }
        case VIEW: view(r, (int)(o.a[1] % NVIEWS), (int)(o.a[4] % 8), x, o.a[5] & 1); break;
        case RECREATE: renew(r); break;
        }
        if (cfg.content || cfg.handles)
            if (o.k != CHECK && o.k != VIEW) {
                if (cfg.handles) check_handles(r, op_name[o.k]);
            }
        uint64_t h = 0;
        {
            sim::Quiet q;
            for (auto& S : s)
                for (auto& en : S.ents) h = h * 1000003 + en.mask * 31 + en.h.id();
        }
        sim::state(h);
    }
};

// ---- workloads -------------------------------------------------------------------------------------------------
struct W {
    int k, weight;
};
void fill_op(Rng& g, Op& o, int family_types) {
    o.a[0] = g.chance(1, 4);
    o.a[1] = g.below(1000);
    o.a[2] = g.chance(2, 3) ? g.pick(0, 1, 3, 7, 8, family_types) : g.below(NT);
    o.a[3] = g.below(1000);
    o.a[4] = g.below(1000);
    o.a[5] = g.below(1000);
    if (o.k == CREATE) o.a[1] = g.chance(1, 2) ? g.pick(1, 2, 3, 4, family_types) : g.below(NPACKS);
    if (o.k == MASS_CREATE) {
        o.a[1] = g.pick(5, 6, 7, 12, 17, 18, 19, 20, 21, 25);
        o.a[4] = g.range(2, o.a[1] == 6 || o.a[1] == 7 || o.a[1] == 12 || o.a[1] == 20 || o.a[1] == 21 ? 9 : 36);
    }
    if (o.k == MASS_DESTROY) o.a[1] = g.below(3), o.a[4] = g.range(1, 24);
    if (o.k == GROUP_MOVE) o.a[4] = g.range(2, 24);
}
void gen_ops(Rng& g, Case& c, std::initializer_list<W> ws, int maxops) {
    c.p = { g.pick(1, 3, 8, 40) };
    int n = (int)g.range(2, g.chance(1, 4) ? maxops : maxops / 3);
    int fam = (int)g.below(NT);
    // each run favours some operations
    std::vector<W> v(ws);
    int tot = 0;
    for (auto& w : v) {
        w.weight *= (int)g.pick(0, 1, 1, 2, 4);
        tot += w.weight;
    }
    if (!tot) v[0].weight = tot = 1;
    for (int i = 0; i < n; i++) {
        Op o;
        int64_t p = g.below(tot);
        for (auto& w : v)
            if ((p -= w.weight) < 0) {
                o.k = w.k;
                break;
            }
        if (i < 3 && g.chance(2, 3)) o.k = g.chance(1, 3) ? MASS_CREATE : CREATE;
        fill_op(g, o, fam);
        c.ops.push_back(o);
    }
}
#define STRUCTURAL                                                                                                                         \
    { CREATE, 6 }, { DESTROY, 3 }, { SET, 5 }, { GOI, 2 }, { REMOVE, 3 }, { CLONE, 2 }, { XCOPY, 1 }, { XMOVE, 2 }, { MASS_CREATE, 1 },       \
        { MASS_DESTROY, 1 }, { GROUP_MOVE, 1 }, { ASSIGN, 2 }
std::string show_op(const Case&, const Op& o) {
    char b[160];
    std::snprintf(b, sizeof b, "%s registry=%d entity/pack=%lld type=%s value=%lld n=%lld", op_name[o.k], (int)(o.a[0] & 1), (long long)o.a[1], type_label((int)(o.a[2] % NT)), (long long)o.a[3], (long long)o.a[4]);
    return b;
}
} // namespace
