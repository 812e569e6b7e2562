// C20 one registry read by many threads, C21 independent registries used by different threads
#include "world.h"

#include <algorithm>
#include <string>

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_WEAKCAS) | (1u << sim::K_STALL) | (1u << sim::K_WAKE);
constexpr unsigned F = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);

// ---- C21 -------------------------------------------------------------------------------------------------------
// Each world (two registries) is used by one thread at a time: p[1] worlds, p[2] phases with threads of their own
// op: a[0] bit 0 registry, bits 1.. world, bits 4.. phase
void gen_separate(Rng& g, Case& c) {
    gen_ops(g, c, { STRUCTURAL, { RESERVE, 1 }, { SYNC, 1 }, { FILL, 2 }, { STALE, 1 }, { VIEW, 4 }, { RECREATE, 1 }, { CHECK, 1 } }, 60);
    int worlds = (int)g.range(2, 4), phases = (int)g.pick(1, 1, 2);
    c.p = { c.p[0], worlds, phases, g.below(2), g.below(4) };
    bool alike = g.chance(1, 2); // the threads do the same things
    std::vector<Op> more;
    for (auto& o : c.ops) {
        if (o.k == MASS_CREATE || o.k == MASS_DESTROY || o.k == GROUP_MOVE) o.a[4] = std::min<int64_t>(o.a[4], 14);
        int64_t w = g.below(worlds), ph = g.below(phases);
        o.a[0] |= w << 1 | ph << 4;
        if (alike) {
            Op t = o;
            t.a[0] = (o.a[0] & ~14) | ((w + 1) % worlds) << 1;
            if (g.chance(1, 4)) t.a[3] += 1;
            more.push_back(t);
        }
    }
    for (auto& o : more) c.ops.push_back(o);
}
void run_separate(const Case& c) {
    int worlds = (int)c.p[1], phases = (int)c.p[2];
    Cfg cfg{ .handles = true, .content = true, .faults = (c.p[4] & 1) != 0, .life = true, .views = true };
    track_life = true;
    track_align = true;
    {
        std::vector<std::unique_ptr<World>> w((size_t)worlds);
        if (c.p[3])
            for (auto& x : w) x = std::make_unique<World>(cfg);
        for (int ph = 0; ph < phases; ph++) {
            std::vector<std::thread> th;
            for (int i = 0; i < worlds; i++) {
                std::vector<Op> ops;
                {
                    sim::Quiet q;
                    for (auto& o : c.ops)
                        if ((o.a[0] >> 1 & 7) % worlds == i && (o.a[0] >> 4) % phases == ph) ops.push_back(o);
                }
                bool end = ph == phases - 1 && (c.p[4] & 2);
                th.emplace_back([&, i, end, ops = std::move(ops)] {
                    auto& x = w[(size_t)i];
                    if (!x) x = std::make_unique<World>(cfg);
                    for (auto& o : ops) {
                        x->step(o);
                        sim::point();
                    }
                    x->check("what the thread did");
                    if (end) x.reset(); // the thread destroys its registries
                });
            }
            for (auto& t : th) t.join();
            sim::probe(3);
        }
        sim::settle();
        for (auto& x : w) {
            if (!x) continue;
            x->cfg.faults = false;
            x->check("what the threads did");
            // the registries go on working here
            for (int i = 0; i < 3; i++) x->create(i & 1, 1 + i, 900 + i, "create");
            if (auto* e = x->pick(0, 3)) x->set(0, e, 1, 77, 0);
            if (auto* e = x->pick(0, 1)) x->transfer(0, e);
            if (auto* e = x->pick(1, 1)) x->destroy(1, e, true);
            x->check("operations on the main thread");
            x.reset();
            for (auto& y : w)
                if (y) y->check("another registry was destroyed");
        }
    }
    all_destroyed("all registries are destroyed");
    sim::check_leaks("after the registries were destroyed");
    track_life = track_align = false;
}

// ---- C20 -------------------------------------------------------------------------------------------------------
enum { R_ALIVE = 100, R_HAS, R_GET, R_GET2, R_VISIT, R_VIEW, R_SIZE, R_ARCH, R_COPY, R_STALE, R_WRITE, R_RESERVE, R_CMD, R_N };
const char* const read_name[] = { "alive", "has", "get", "get several", "visit", "iterate a view", "size", "archetype", "copy to an own registry", "read a stale handle", "write through a view", "reserve", "record commands" };

constexpr int OWNABLE[] = { 0, 1, 2, 3, 8, 12 }; // A B D32 Byte J W16

void gen_readers(Rng& g, Case& c) {
    gen_ops(g, c, { STRUCTURAL, { RESERVE, 0 }, { SYNC, 1 } }, 30);
    int threads = (int)g.range(2, 4);
    int64_t own = 0; // 3 bits per ownable type: 0 nobody, n thread n-1
    for (int i = 0; i < 6; i++) own |= (g.chance(1, 3) ? g.range(1, threads) : 0) << 3 * i;
    int64_t seed = g.below(1 << 20);
    c.p = { c.p[0], threads, own, seed };
    for (auto& o : c.ops) {
        if (o.k == MASS_CREATE || o.k == MASS_DESTROY || o.k == GROUP_MOVE) o.a[4] = std::min<int64_t>(o.a[4], 20);
        o.a[0] = g.chance(1, 6);
    }
    int n = (int)g.range(4, 40);
    int64_t fav = g.range(R_ALIVE, R_N - 1), ent = g.below(1000), type = g.below(NT);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = (int)(g.chance(1, 3) ? fav : g.range(R_ALIVE, R_N - 1));
        o.a[0] = g.below(threads);
        o.a[1] = g.chance(1, 3) ? ent : g.below(1000);
        o.a[2] = g.chance(1, 3) ? type : g.below(NT);
        o.a[3] = g.below(1000);
        o.a[4] = g.below(1000);
        o.a[5] = g.below(1000);
        c.ops.push_back(o);
    }
}

struct Readers {
    World& w;
    co_ecs::registry& reg;
    const co_ecs::registry& creg;
    int64_t own;
    std::map<std::pair<uint32_t, uint32_t>, Ent*> by;
    struct Thread {
        std::unique_ptr<co_ecs::registry> mine = std::make_unique<co_ecs::registry>();
        std::vector<std::pair<entity, Ent*>> copies;
        std::vector<entity> reserved;
        std::vector<std::pair<entity, int64_t>> created;
        std::vector<std::pair<Ent*, int64_t>> cmds; // J set by a command
    };
    std::vector<Thread> th;

    Readers(World& w, int64_t own, int n) : w(w), reg(*w.s[0].reg), creg(reg), own(own), th((size_t)n) {
        sim::Quiet q;
        for (auto& e : w.s[0].ents) by[{ e.h.id(), e.h.generation() }] = &e;
    }
    int owner(int t) const {
        for (int i = 0; i < 6; i++)
            if (OWNABLE[i] == t) return (int)(own >> 3 * i & 7) - 1;
        return -1;
    }
    bool readable(int t, int me) const { return owner(t) < 0 || owner(t) == me; }
    void value(const Ent* e, int t, int64_t got, const char* how) {
        sim::Quiet q;
        if (got != e->val[t])
            sim::fail("oracle:value", "%s: component %s of entity (%u,%u) is %lld instead of %lld", how, type_label(t), e->h.id(), e->h.generation(), (long long)got, (long long)e->val[t]);
    }
    Ent* lookup(const entity& h, const char* how) {
        sim::Quiet q;
        auto it = by.find({ h.id(), h.generation() });
        if (it == by.end()) sim::fail("oracle:view-stray", "%s gives an entity (%u,%u) that is not in the registry", how, h.id(), h.generation());
        return it->second;
    }
    template<typename... Args>
    void view(int me, const Op& o) {
        constexpr bool is_const = (std::is_const_v<std::remove_reference_t<Args>> && ...);
        constexpr uint32_t mask = (0u | ... | World::bit<Args>());
        auto usable = [&]<typename T>(std::type_identity<T>) {
            if constexpr (std::is_same_v<std::remove_cvref_t<T>, entity>) return true;
            else if constexpr (std::is_const_v<std::remove_reference_t<T>>) return readable(std::remove_cvref_t<T>::id, me);
            else return owner(std::remove_cvref_t<T>::id) == me;
        };
        if (!(usable(std::type_identity<Args>{}) && ...)) return;
        std::vector<Ent*> got;
        const char* how = "iterating a view";
        auto entry = [&](Args... args) {
            Ent* e = nullptr;
            auto who = [&]<typename T>(const T& x) {
                if constexpr (std::is_same_v<T, entity>) e = lookup(x, how);
            };
            (who(args), ...);
            {
                sim::Quiet q;
                if ((e->mask & mask) != mask) sim::fail("oracle:view-stray", "%s gives an entity without the components", how);
                got.push_back(e);
            }
            auto wrap = [&]<typename T>(T& x) {
                if constexpr (!std::is_same_v<std::remove_const_t<T>, entity>) {
                    constexpr int t = std::remove_const_t<T>::id;
                    value(e, t, x.value(), how);
                    if constexpr (!std::is_const_v<T>) {
                        int64_t v = val_of(o.a[3] + e->h.id(), t);
                        x.assign(v);
                        sim::Quiet q;
                        e->val[t] = v;
                    }
                }
            };
            (wrap(args), ...);
        };
        bool one = false;
        if constexpr (is_const) {
            switch (o.a[4] % 7) {
            case 0: for (auto x : creg.view<Args...>().each()) std::apply(entry, x); break;
            case 1: creg.view<Args...>().each(entry); break;
            case 2:
                for (auto chunk : creg.view<Args...>().chunks())
                    for (auto x : chunk) std::apply(entry, x);
                break;
            case 3: creg.each([&](Args... a) { entry(a...); }); break;
            case 4: {
                auto x = creg.view<Args...>().single();
                if (x) std::apply(entry, *x);
                one = true;
                break;
            }
            case 5: {
                auto x = creg.single<Args...>();
                if (x) std::apply(entry, *x);
                one = true;
                break;
            }
            default: for (auto x : co_ecs::view<Args...>(reg).each()) std::apply(entry, x);
            }
        } else {
            switch (o.a[4] % 4) {
            case 0: for (auto x : reg.view<Args...>().each()) std::apply(entry, x); break;
            case 1: reg.view<Args...>().each(entry); break;
            case 2:
                for (auto chunk : reg.view<Args...>().chunks())
                    for (auto x : chunk) std::apply(entry, x);
                break;
            default: reg.each([&](Args... a) { entry(a...); });
            }
        }
        sim::Quiet q;
        size_t want = 0;
        for (auto& [k, e] : by) want += (e->mask & mask) == mask;
        if (one) {
            if (got.size() != (want > 0)) sim::fail("oracle:view-missing", "single() gives %s", got.empty() ? "nothing" : "something that is not there");
        } else {
            std::sort(got.begin(), got.end());
            if (std::unique(got.begin(), got.end()) != got.end()) sim::fail("oracle:view-twice", "%s gives an entity twice", how);
            if (got.size() != want) sim::fail("oracle:view-missing", "%s gives %zu of %zu entities", how, got.size(), want);
        }
        sim::probe(2);
        std::vector<Ent*>().swap(got);
    }
    void step(int me, const Op& o) {
        Ent* e = w.pick(0, o.a[1]);
        int t = (int)(o.a[2] % NT);
        Thread& my = th[(size_t)me];
        auto bad = [&](bool x, const char* what) {
            if (x) sim::fail("oracle:read", "%s gives a wrong answer while other threads use the registry", what);
        };
        switch (o.k) {
        case R_ALIVE:
            if (e) bad(!creg.alive(e->h) || !creg.get_entity(e->h).alive() || !reg.get_entity(e->h).alive(), "alive");
            if (auto& d = w.s[0].dead; !d.empty()) bad(creg.alive(d[(size_t)o.a[3] % d.size()]), "alive");
            break;
        case R_HAS:
            if (e) with_type(t, [&]<class C>() {
                bool want = e->mask >> t & 1;
                bad(creg.has<C>(e->h) != want || creg.get_entity(e->h).template has<C>() != want || reg.get_entity(e->h).template has<C>() != want, "has");
                bad(creg.template has<C, A>(e->h) != (want && (e->mask & 1)), "has");
            });
            break;
        case R_GET:
            if (e && readable(t, me)) with_type(t, [&]<class C>() {
                try {
                    const C& c = o.a[3] & 1 ? creg.get_entity(e->h).template get<C>() : reg.get_entity_const(e->h).template get<C>();
                    bad(!(e->mask >> t & 1), "get of a missing component");
                    value(e, t, c.value(), "get");
                } catch (const std::exception&) {
                    bad(e->mask >> t & 1, "get");
                }
            });
            break;
        case R_GET2:
            if (e && readable(0, me) && readable(1, me)) {
                try {
                    auto [a, b] = creg.get_entity(e->h).template get<A, B>();
                    bad((e->mask & 3) != 3, "get of missing components");
                    value(e, 0, a.value(), "get");
                    value(e, 1, b.value(), "get");
                } catch (const std::exception&) {
                    bad((e->mask & 3) == 3, "get");
                }
            }
            break;
        case R_VISIT:
            if (e) {
                uint32_t seen = 0;
                creg.get_entity(e->h).visit([&](const co_ecs::component_meta& m, const void* p) {
                    for (int k = 0; k < NT; k++)
                        with_type(k, [&]<class C>() {
                            if (!(m == co_ecs::component_meta::of<C>())) return;
                            seen |= 1u << k;
                            bad(m.type->size != sizeof(C) || m.type->align != alignof(C), "the description of a component type");
                            if (readable(k, me)) value(e, k, static_cast<const C*>(p)->value(), "visit");
                        });
                });
                bad(seen != e->mask, "visit");
            }
            break;
        case R_VIEW:
            switch (o.a[5] % 9) {
            case 0: view<const entity&>(me, o); break;
            case 1: view<const A&, const entity&>(me, o); break;
            case 2: view<const entity&, const B&>(me, o); break;
            case 3: view<const entity&, const A&, const B&>(me, o); break;
            case 4: view<const G&, const entity&>(me, o); break;
            case 5: view<const D32&, const entity&, const Byte&>(me, o); break;
            case 6: view<const entity&, const Tg&>(me, o); break;
            case 7: view<const Mo&, const J&, const entity&>(me, o); break;
            default: view<const H&, const entity&>(me, o); break;
            }
            break;
        case R_WRITE:
            for (int i = 0; i < 7; i++) // the first one possible
                if (owner(i) == me || i == 6) {
                    switch (o.a[5] % 4 == 0 ? 6 : i) {
                    case 0: view<A&, const entity&>(me, o); break;
                    case 1: view<const entity&, B&>(me, o); break;
                    case 2: view<D32&, const Byte&, const entity&>(me, o); break;
                    case 3: view<const entity&, Byte&>(me, o); break;
                    case 6: view<W16&, const A&, const entity&>(me, o), view<J&, const entity&>(me, o), view<const entity&, const A&, B&>(me, o); break;
                    }
                    break;
                }
            break;
        case R_SIZE: {
            size_t n = creg.size();
            bool em = creg.empty();
            sim::Quiet q;
            bad(n != by.size() || em != by.empty(), "size");
            break;
        }
        case R_ARCH:
            if (e) {
                const auto& comps = creg.get_entity(e->h).archetype().components();
                uint32_t m = 0;
                size_t n = 0;
                for (const auto& meta : comps) {
                    n++;
                    for (int k = 0; k < NT; k++) with_type(k, [&]<class C>() { m |= (uint32_t)(meta == co_ecs::component_meta::of<C>()) << k; });
                }
                bad(m != e->mask || n != comps.size(), "archetype().components()");
                with_type(t, [&]<class C>() { bad(comps.template contains<C>() != (bool)(e->mask >> t & 1), "archetype().components()"); });
                // the archetypes of the registry
                size_t ents = 0;
                for (const auto& [key, arch] : creg.archetypes())
                    for (const auto& chunk : arch->chunks()) ents += chunk.size();
                bad(ents != by.size(), "archetypes()");
            }
            break;
        case R_COPY:
            if (e && can_copy(e->mask)) {
                bool ok = true;
                for (int k = 0; k < NT; k++) ok &= !(e->mask >> k & 1) || readable(k, me);
                if (!ok) break;
                try {
                    entity h;
                    {
                        sim::Allow a(F);
                        h = creg.get_entity(e->h).copy(*my.mine);
                    }
                    for (int k = 0; k < NT; k++)
                        if (e->mask >> k & 1) with_type(k, [&]<class C>() { value(e, k, std::as_const(*my.mine).get_entity(h).template get<C>().value(), "copy to another registry"); });
                    bad(!my.mine->alive(h), "copy to another registry");
                } catch (const std::exception&) {
                    bad(!sim::injected(sim::K_ALLOC) && !sim::injected(sim::K_THROW), "copy to another registry");
                }
                sim::probe(4);
            }
            break;
        case R_STALE:
            if (auto& d = w.s[0].dead; !d.empty()) {
                entity h = d[(size_t)o.a[1] % d.size()];
                bool threw = false;
                try {
                    switch (o.a[4] % 4) {
                    case 0: (void)creg.get_entity(h).get<A>().v; break;
                    case 1: (void)creg.has<A>(h); break;
                    case 2: creg.visit(h, [](auto&&...) {}); break;
                    default: (void)creg.get_entity(h).copy(*my.mine); break;
                    }
                } catch (const std::exception&) {
                    threw = true;
                }
                bad(!threw, "using a stale handle");
            }
            break;
        case R_RESERVE: {
            entity h = reg.reserve().get_entity();
            sim::Quiet q;
            my.reserved.push_back(h);
            break;
        }
        case R_CMD: {
            co_ecs::command_writer cw(reg);
            entity h = cw.create<A, Byte>(A(o.a[3]), Byte(o.a[3]));
            {
                sim::Quiet q;
                my.reserved.push_back(h);
                my.created.push_back({ h, o.a[3] });
            }
            if (o.a[4] & 1) cw.get_entity(h).set<B>(o.a[3]);
            if (e && (o.a[4] & 2) && fits(e->mask | 1u << 9)) cw.get_entity(e->h).set<K>(o.a[3]).remove<K>();
            sim::probe(5);
            break;
        }
        }
    }
};

void run_readers(const Case& c) {
    track_life = track_align = false;
    int threads = (int)c.p[1];
    {
        World w(Cfg{});
        for (auto& o : c.ops)
            if (o.k < R_ALIVE) w.step(o);
        if (w.s[0].reg) w.s[0].reg->sync();
        Readers r(w, c.p[2], threads);
        std::vector<std::thread> th;
        for (int i = 0; i < threads; i++)
            th.emplace_back([&, i] {
                for (auto& o : c.ops)
                    if (o.k >= R_ALIVE && o.a[0] == i) {
                        r.step(i, o);
                        sim::point();
                    }
            });
        for (auto& t : th) t.join();
        sim::settle();
        // nothing but the components written by their owners has changed
        w.cfg.content = w.cfg.handles = true;
        w.check("threads used the registry");
        {
            sim::Quiet q;
            std::set<std::pair<uint32_t, uint32_t>> all;
            for (auto& [k, e] : r.by) all.insert(k);
            for (auto& t : r.th)
                for (auto& h : t.reserved)
                    if (!all.insert({ h.id(), h.generation() }).second) sim::fail("oracle:handle-reused", "the reserved handle (%u,%u) was handed out before", h.id(), h.generation());
        }
        co_ecs::command_buffer::flush(*w.s[0].reg);
        for (auto& t : r.th) {
            for (auto& h : t.reserved)
                if (!w.s[0].reg->alive(h)) sim::fail("oracle:not-alive", "a handle reserved by a thread is not alive after the flush");
            for (auto& [h, x] : t.created)
                if (std::as_const(*w.s[0].reg).get_entity(h).get<A>().value() != x) sim::fail("oracle:value", "an entity created by a command has a wrong value");
        }
        sim::probe(3);
        uint64_t s = 0;
        {
            sim::Quiet q;
            for (auto& t : r.th) s = s * 31 + t.reserved.size() * 7 + t.copies.size();
            s = s * 1009 + r.by.size();
        }
        sim::state(s);
    }
}

std::string show20(const Case& c, const Op& o) {
    if (o.k < R_ALIVE) return show_op(c, o);
    char b[160];
    std::snprintf(b, sizeof b, "thread %d: %s entity=%lld type=%s value=%lld way=%lld view=%lld", (int)o.a[0], read_name[o.k - R_ALIVE], (long long)o.a[1], type_label((int)(o.a[2] % NT)), (long long)o.a[3], (long long)o.a[4], (long long)o.a[5]);
    return b;
}
std::string show21(const Case& c, const Op& o) {
    return "phase " + std::to_string((o.a[0] >> 4) % std::max<int64_t>(1, c.p[2])) + " thread " + std::to_string((o.a[0] >> 1 & 7) % std::max<int64_t>(1, c.p[1])) + ": " + show_op(c, o);
}

sim::Register r20({ "C20", { { "readers", 1, SCHED | F, gen_readers, run_readers, show20, "threads read one registry in every way while others write components of their own, reserve handles and record commands" } },
    { "failed-injected", "failed-expected", "view", "all threads joined", "copied out", "commands recorded" } });
sim::Register r21({ "C21", { { "separate", 1, SCHED | F, gen_separate, run_separate, show21, "threads work on registries of their own, hand them over, and destroy them" } },
    { "failed-injected", "failed-expected", "view", "phase done" } });

} // namespace
