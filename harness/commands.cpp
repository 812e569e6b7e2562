// C09 commands take effect once and in order, C10 reserved handles, C16 commands survive their threads
#include "comps.h"

#include <atomic>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <thread>

using namespace hc;
using sim::Case;
using sim::Op;
using sim::Rng;
using co_ecs::entity;

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_TIME) | (1u << sim::K_WEAKCAS)
                           | (1u << sim::K_STALL) | (1u << sim::K_WAKE);
constexpr unsigned FAULTS = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);

// ops of a thread program
enum { CREATE = 0, SET, REMOVE, DESTROY, CLONE, SHARED_SET, SHARED_REMOVE, RESERVE, READ, /* main, after the threads recorded */ DIRECT_CREATE, DIRECT_DESTROY, FLUSH, N_OPS };
const char* const op_name[] = { "record create", "record set", "record remove", "record destroy", "record clone", "record set of a shared entity", "record remove of a shared entity",
    "reserve", "read", "create directly", "destroy directly", "flush" };
enum Mode { THREADS = 0, POOL, POOL_GONE, SCHEDULE };
enum Check { CONTENT = 1, HANDLES = 2 };

struct Ent {
    entity h;
    bool now = false, then = false; // alive before / after the next flush
    uint32_t mask = 0, next_mask = 0;
    int64_t val[NT] = {}, next_val[NT] = {};
    bool touched = false; // commands recorded for it in this round
    bool fresh = false;   // created by a command of this round
};
struct Raw {
    co_ecs::placeholder_entity p;
    entity h;
    bool synced = false;
};

// the component a thread may change on shared entities
const int shared_type[] = { 0, 8, 3, 5, 1, 12 };

struct World {
    unsigned check;
    std::unique_ptr<co_ecs::registry> reg;
    co_ecs::registry other; // source of copies and moves into reserved entities
    std::vector<Ent> ents;
    std::vector<std::vector<int>> own; // by thread
    std::vector<int> shared;
    std::vector<Raw> raws;
    std::set<std::pair<uint32_t, uint32_t>> issued;
    int expected_failures = 0;
    int64_t next_value = 1;

    std::vector<co_ecs::command_writer*> given; // the writer a system was given, by program
    co_ecs::command_writer writer(int t) { return (size_t)t < given.size() && given[(size_t)t] ? *given[(size_t)t] : co_ecs::command_writer(*reg); }

    void issue(entity h, const char* how) {
        if (!issued.insert({ h.id(), h.generation() }).second)
            sim::fail("oracle:handle-reused", "%s returned the handle (%u,%u) which was handed out before", how, h.id(), h.generation());
        for (auto& e : ents)
            if (e.now && e.h == h) sim::fail("oracle:handle-reused", "%s returned the handle (%u,%u) of a live entity", how, h.id(), h.generation());
    }
    Ent* target(int t, int64_t i) {
        auto& o = own[(size_t)t];
        return o.empty() ? nullptr : &ents[(size_t)o[(size_t)i % o.size()]];
    }
    // the model of a command
    bool model_set(Ent* e, int t, int64_t v) {
        e->touched = true;
        if (!e->then || (!(e->next_mask >> t & 1) && !fits(e->next_mask | 1u << t))) {
            expected_failures++;
            return false;
        }
        e->next_mask |= 1u << t;
        e->next_val[t] = v;
        return true;
    }
    void model_remove(Ent* e, int t) {
        e->touched = true;
        if (!e->then) expected_failures++;
        else e->next_mask &= ~(1u << t);
    }
    void model_destroy(Ent* e) {
        e->touched = true;
        if (!e->then) expected_failures++;
        e->then = false;
    }

    template<typename... C>
    void create(int t, int64_t v) {
        co_ecs::command_writer w = writer(t);
        auto c = w.create<C...>(C(norm(C::id, v + C::id))...);
        entity h = c;
        sim::Quiet q;
        issue(h, "a recorded create");
        Ent e;
        e.h = h;
        e.then = e.touched = e.fresh = true;
        ((e.next_mask |= 1u << C::id, e.next_val[C::id] = norm(C::id, v + C::id)), ...);
        own[(size_t)t].push_back((int)ents.size());
        ents.push_back(e);
    }
    void step(int t, const Op& o) {
        int64_t v = o.a[3];
        int ty = (int)(o.a[2] % NT);
        for (int i = 0; i < o.a[4]; i++) sim::point();
        switch (o.k) {
        case CREATE:
            switch (o.a[1] % 6) {
            case 0: create<A>(t, v); break;
            case 1: create<A, B>(t, v); break;
            case 2: create<Byte, J>(t, v); break;
            case 3: create<Mo, A>(t, v); break;
            case 4: create<>(t, v); break;
            default: create<G>(t, v); break;
            }
            break;
        case SET: {
            Ent* e;
            entity h;
            {
                sim::Quiet q;
                if (!(e = target(t, o.a[1]))) return;
                h = e->h;
                model_set(e, ty, norm(ty, v));
            }
            co_ecs::command_writer w = writer(t);
            with_type(ty, [&]<class C>() {
                if (o.a[5] & 1) w.get_entity(h).template set<C>(C(v));
                else w.get_entity(h).template set<C>(v);
            });
            break;
        }
        case REMOVE: {
            entity h;
            {
                sim::Quiet q;
                Ent* e = target(t, o.a[1]);
                if (!e) return;
                h = e->h;
                model_remove(e, ty);
            }
            co_ecs::command_writer w = writer(t);
            with_type(ty, [&]<class C>() { w.get_entity(h).template remove<C>(); });
            break;
        }
        case DESTROY: {
            entity h;
            {
                sim::Quiet q;
                Ent* e = target(t, o.a[1]);
                if (!e) return;
                h = e->h;
                model_destroy(e);
            }
            co_ecs::command_writer w = writer(t);
            if (o.a[5] & 1) w.destroy(h);
            else w.get_entity(h).destroy();
            break;
        }
        case CLONE: {
            entity h;
            int src;
            {
                sim::Quiet q;
                Ent* e = target(t, o.a[1]);
                if (!e) return;
                h = e->h;
                src = (int)(e - ents.data());
            }
            co_ecs::command_writer w = writer(t);
            auto c = w.get_entity(h).clone();
            entity n = c;
            {
                sim::Quiet q;
                issue(n, "a recorded clone");
                Ent e;
                e.h = n;
                e.touched = e.fresh = true;
                Ent& s = ents[(size_t)src];
                s.touched = true;
                if (!s.then || !can_copy(s.next_mask)) expected_failures++;
                else {
                    e.then = true;
                    e.next_mask = s.next_mask;
                    std::copy(s.next_val, s.next_val + NT, e.next_val);
                }
                own[(size_t)t].push_back((int)ents.size());
                ents.push_back(e);
            }
            break;
        }
        case SHARED_SET:
        case SHARED_REMOVE: {
            int st = shared_type[t % 6];
            entity h;
            {
                sim::Quiet q;
                if (shared.empty()) return;
                Ent* e = &ents[(size_t)shared[(size_t)o.a[1] % shared.size()]];
                h = e->h;
                if (o.k == SHARED_SET) model_set(e, st, norm(st, v));
                else model_remove(e, st);
            }
            co_ecs::command_writer w = writer(t);
            with_type(st, [&]<class C>() {
                if (o.k == SHARED_SET) w.get_entity(h).template set<C>(v);
                else w.get_entity(h).template remove<C>();
            });
            break;
        }
        case RESERVE: {
            auto p = reg->reserve();
            sim::Quiet q;
            issue(p.get_entity(), "reserve");
            raws.push_back({ p, p.get_entity() });
            break;
        }
        case READ: { // commands have not taken effect yet; nobody changes the registry meanwhile
            entity h;
            uint32_t mask;
            int64_t vals[NT];
            {
                sim::Quiet q;
                if (ents.empty()) return;
                Ent& e = ents[(size_t)o.a[1] % ents.size()];
                if (!e.now) return;
                h = e.h;
                mask = e.mask;
                std::copy(e.val, e.val + NT, vals);
            }
            bool ok = reg->alive(h);
            for (int x = 0; ok && x < NT; x++)
                if (mask >> x & 1) with_type(x, [&]<class C>() { ok = reg->template has<C>(h) && std::as_const(*reg).get_entity(h).template get<C>().value() == vals[x]; });
            if (!ok && (check & CONTENT)) sim::fail("oracle:early", "a command took effect before the flush");
            break;
        }
        }
    }
    // the registry holds what the model says
    void verify(bool after, const char* when) {
        sim::Quiet q;
        auto& r = *reg;
        std::set<std::pair<uint32_t, uint32_t>> stored;
        std::as_const(r).view<const entity&>().each([&](const entity& h) {
            if (!stored.insert({ h.id(), h.generation() }).second) sim::fail("oracle:duplicate", "entity (%u,%u) is stored twice %s", h.id(), h.generation(), when);
        });
        size_t n = 0;
        for (auto& e : ents) {
            bool want = after ? e.then : e.now;
            n += want;
            if (!after && !e.now) continue; // reserved: nothing is promised before the flush
            if (r.alive(e.h) != want) {
                if (want) sim::fail("oracle:not-alive", "entity (%u,%u) is not alive %s", e.h.id(), e.h.generation(), when);
                sim::fail("oracle:alive", "entity (%u,%u) is alive %s although %s", e.h.id(), e.h.generation(), when, e.now ? "it was destroyed" : "creating it failed or it was destroyed");
            }
            if (!want) continue;
            if (!stored.count({ e.h.id(), e.h.generation() })) sim::fail("oracle:entities", "entity (%u,%u) is alive but not stored in the registry %s", e.h.id(), e.h.generation(), when);
            uint32_t mask = after ? e.next_mask : e.mask;
            auto* val = after ? e.next_val : e.val;
            if (!(check & CONTENT) && !e.fresh) continue;
            for (int t = 0; t < NT; t++)
                with_type(t, [&]<class C>() {
                    bool has = false;
                    int64_t got = 0;
                    try {
                        has = r.template has<C>(e.h);
                        if (has) got = std::as_const(r).get_entity(e.h).template get<C>().value();
                    } catch (const std::exception& x) {
                        sim::fail("oracle:failed", "reading entity (%u,%u) failed %s: %s", e.h.id(), e.h.generation(), when, x.what());
                    }
                    if (has != (mask >> t & 1)) sim::fail("oracle:components", "entity (%u,%u) %s component %s %s", e.h.id(), e.h.generation(), has ? "has a stray" : "misses", type_label(t), when);
                    if (has && got != val[t]) sim::fail("oracle:value", "component %s of entity (%u,%u) is %lld instead of %lld %s", type_label(t), e.h.id(), e.h.generation(), (long long)got, (long long)val[t], when);
                });
        }
        if (r.size() != n) sim::fail("oracle:size", "the registry has %zu entities instead of %zu %s", r.size(), n, when);
        if (after)
            for (auto& p : raws)
                if (p.synced && !r.alive(p.h)) sim::fail("oracle:not-alive", "a reserved entity (%u,%u) is not alive %s", p.h.id(), p.h.generation(), when);
    }
    void flush_all(bool other_thread) {
        int failures = 0;
        while (true) {
            bool ok = true;
            auto f = [&] {
                try {
                    co_ecs::command_buffer::flush(*reg);
                } catch (const std::exception&) {
                    ok = false;
                }
            };
            if (other_thread) {
                std::thread th(f);
                th.join();
            } else f();
            if (ok) break;
            sim::probe(0);
            if (++failures > expected_failures)
                sim::fail("oracle:failed", "%d flushes failed although only %d of the recorded commands cannot be applied", failures, expected_failures);
        }
        // a flush that does not fail has nothing left to report
        if (failures < expected_failures && (check & CONTENT))
            sim::fail("oracle:not-reported", "%d of the recorded commands cannot be applied but only %d flushes failed", expected_failures, failures);
        sim::probe(1);
        {
            sim::Quiet q;
            for (auto& p : raws) p.synced = true;
        }
        verify(true, "after the flush");
        sim::Quiet q;
        expected_failures = 0;
        for (auto& e : ents) {
            e.now = e.then;
            e.mask = e.next_mask;
            std::copy(e.next_val, e.next_val + NT, e.val);
            e.touched = e.fresh = false;
        }
    }
    // reserved entities become what is cloned, copied or moved into them
    void fill_raws(int64_t how) {
        for (size_t i = 0; i < raws.size(); i++, how++) {
            if (how % 4 == 3) continue; // stays reserved
            auto p = raws[i].p;
            Ent e;
            {
                sim::Quiet q;
                e.h = raws[i].h;
                e.now = e.then = true;
            }
            int64_t v = 500 + how;
            try {
                auto src = other.create<A, Byte>(A(v), Byte(v));
                if (how % 4 == 0) src.copy(*reg, p), src.destroy();
                else if (how % 4 == 1) src.move(*reg, p);
                else {
                    auto in = src.move(*reg);
                    in.clone(p);
                    in.destroy();
                }
            } catch (const std::exception& x) {
                sim::fail("oracle:failed", "filling a reserved entity failed: %s", x.what());
            }
            sim::Quiet q;
            e.mask = e.next_mask = 1u << 0 | 1u << 3;
            e.val[0] = e.next_val[0] = v;
            e.val[3] = e.next_val[3] = v & 0xff;
            own[0].push_back((int)ents.size());
            ents.push_back(e);
            raws.erase(raws.begin() + (long)i--);
            sim::probe(2);
        }
    }
    void direct_create(int64_t v) {
        A a(v);
        entity h = reg->create<A>(std::move(a));
        sim::Quiet q;
        issue(h, "a direct create");
        Ent e;
        e.h = h;
        e.now = e.then = true;
        e.mask = e.next_mask = 1;
        e.val[0] = e.next_val[0] = v;
        own[0].push_back((int)ents.size());
        ents.push_back(e);
    }
    void direct_destroy(int64_t i) {
        Ent* e = nullptr;
        {
            sim::Quiet q;
            for (size_t k = 0; k < ents.size() && !e; k++) {
                Ent& c = ents[((size_t)i + k) % ents.size()];
                bool sh = false;
                for (int s : shared) sh |= &ents[(size_t)s] == &c;
                if (c.now && c.then && !c.touched && !sh) e = &c;
            }
        }
        if (!e) return;
        reg->destroy(e->h);
        sim::Quiet q;
        e->now = e->then = false;
    }
    void setup(int threads, int n) {
        reg = std::make_unique<co_ecs::registry>();
        own.resize((size_t)threads + 1);
        for (int i = 0; i < n; i++) {
            direct_create(10 + i);
            sim::Quiet q;
            own[0].pop_back();
            if (i < 2) shared.push_back((int)ents.size() - 1);
            else own[(size_t)i % own.size()].push_back((int)ents.size() - 1);
        }
    }
};

// p: threads, initial entities, mode, pool size, flush from another thread
void run_rounds(const Case& c, unsigned check) {
    World w;
    w.check = check;
    int threads = (int)c.p[0];
    w.setup(threads, (int)c.p[1]);
    int mode = (int)c.p[2];
    std::unique_ptr<co_ecs::thread_pool> pool;
    std::unique_ptr<co_ecs::schedule> sched;
    std::unique_ptr<co_ecs::schedule_executor> ex;
    std::function<void(int)> run_body;
    size_t i = 0;
    int64_t round = 0;
    while (i < c.ops.size() || round == 0) {
        std::vector<std::vector<const Op*>> prog((size_t)threads + 1);
        std::vector<const Op*> direct;
        bool any = false;
        {
            sim::Quiet q;
            for (; i < c.ops.size() && c.ops[i].k != FLUSH; i++) {
                const Op& o = c.ops[i];
                if (o.k == DIRECT_CREATE || o.k == DIRECT_DESTROY) direct.push_back(&o);
                else prog[(size_t)o.a[0] % prog.size()].push_back(&o);
                any |= true;
            }
            if (i < c.ops.size()) i++;
        }
        auto body = [&](int t) {
            for (auto* o : prog[(size_t)t]) w.step(t, *o);
        };
        run_body = body;
        if (mode == THREADS) {
            std::vector<std::thread> ts;
            for (int t = 1; t <= threads; t++) ts.emplace_back(body, t);
            body(0);
            for (auto& t : ts) t.join();
        } else if (mode == SCHEDULE) {
            // systems which record commands; the executor flushes
            if (!pool) pool = std::make_unique<co_ecs::thread_pool>(c.p[3]);
            w.given.resize((size_t)threads + 1);
            if (!ex || c.p[5] == 0) {
                // a new schedule, or one executor for all rounds, for as many pools as there are
                ex.reset();
                sched = std::make_unique<co_ecs::schedule>();
                auto& st = sched->begin_stage();
                for (int t = 0; t <= threads; t++)
                    st.add_system([&run_body, &w, t](co_ecs::command_writer cw) {
                        w.given[(size_t)t] = &cw;
                        run_body(t);
                        w.given[(size_t)t] = nullptr;
                    });
                ex = sched->create_executor(*w.reg);
            }
            try {
                ex->run_once();
            } catch (const std::exception&) {
                {
                    sim::Quiet q;
                    if (--w.expected_failures < 0) sim::fail("oracle:failed", "a flush failed although all commands can be applied");
                }
            }
            direct.clear();
            if (round % 2 == 1) pool.reset();
        } else {
            if (!pool) pool = std::make_unique<co_ecs::thread_pool>(c.p[3]);
            co_ecs::task_t* root = nullptr;
            for (int t = 0; t <= threads; t++) {
                auto* k = pool->submit([&body, t] { body(t); }, root);
                if (!root) root = k;
            }
            pool->wait(root);
            if (mode == POOL_GONE) pool.reset();
        }
        if (mode != SCHEDULE && (check & CONTENT)) w.verify(false, "before the flush");
        for (auto* o : direct)
            if (o->k == DIRECT_CREATE) w.direct_create(o->a[3]);
            else w.direct_destroy(o->a[1]);
        if (mode != SCHEDULE && (check & CONTENT) && !direct.empty()) w.verify(false, "before the flush");
        bool other = c.p[4] == 1 || (c.p[4] == 2 && round & 1);
        if (mode == SCHEDULE) {
            // reports of commands that cannot be applied may be left for later flushes
            w.flush_all(other);
        } else w.flush_all(other);
        w.fill_raws(round);
        w.verify(true, "after filling reserved entities");
        {
            sim::Quiet q;
            uint64_t h = 0;
            for (auto& e : w.ents) h = h * 1000003 + e.h.id() * 64 + e.h.generation() + e.mask * 7;
            sim::state(h);
        }
        round++;
        (void)any;
    }
    // nothing is applied again
    co_ecs::command_buffer::flush(*w.reg);
    w.verify(true, "after another flush");
}
void run_content(const Case& c) { run_rounds(c, CONTENT); }
void run_handles(const Case& c) { run_rounds(c, HANDLES); }

void gen_prog(Rng& g, Case& c, std::initializer_list<int> weights, int maxround, int maxops, int direct) {
    int rounds = (int)g.range(1, maxround);
    std::vector<int> wt(weights);
    int tot = 0;
    for (auto& w : wt) tot += (w *= (int)g.pick(0, 1, 1, 2));
    if (!tot) wt[0] = tot = 1;
    int pts = (int)g.pick(0, 0, 1, 3);
    for (int r = 0; r < rounds; r++) {
        int n = (int)g.range(1, maxops);
        for (int i = 0; i < n; i++) {
            Op o;
            int64_t p = g.below(tot);
            for (size_t k = 0; k < wt.size(); k++)
                if ((p -= wt[k]) < 0) {
                    o.k = (int)k;
                    break;
                }
            o.a[0] = g.below(c.p[0] + 1);
            o.a[1] = g.chance(1, 3) ? 999 - g.below(3) : g.below(8);
            o.a[2] = g.chance(1, 2) ? g.pick(0, 1, 3, 9, 10) : g.below(NT);
            o.a[3] = g.below(200);
            o.a[4] = g.below(pts + 1);
            o.a[5] = g.below(2);
            c.ops.push_back(o);
        }
        int d = (int)g.below(direct + 1);
        for (int i = 0; i < d; i++) {
            Op o;
            o.k = g.chance(1, 2) ? DIRECT_CREATE : DIRECT_DESTROY;
            o.a[1] = g.below(8);
            o.a[3] = g.below(200);
            c.ops.push_back(o);
        }
        Op f;
        f.k = FLUSH;
        c.ops.push_back(f);
    }
}
constexpr int L9[] = { 0 };
void gen_c09(Rng& g, Case& c) {
    c.p = { g.pick(0, 1, 2, 2, 3), g.range(0, 8), THREADS, 0, 0, 0 };
    gen_prog(g, c, { 4, 6, 3, 2, 2, 2, 1, 0, 2 }, 3, 16, 1);
}
void gen_c09p(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3, 5), g.range(0, 8), POOL, g.pick(1, 2, 3, 4), 0, 0 };
    gen_prog(g, c, { 4, 6, 3, 2, 2, 2, 1, 0, 2 }, 3, 14, 1);
}
void gen_c10(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 2, 3, 4), g.range(0, 10), THREADS, 0, 0, 0 };
    gen_prog(g, c, { 6, 1, 0, 3, 3, 0, 0, 5, 0 }, 5, 14, 4);
}
void gen_c10p(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3, 5), g.range(0, 10), POOL, g.pick(2, 3, 4), 0, 0 };
    gen_prog(g, c, { 6, 1, 0, 3, 3, 0, 0, 5, 0 }, 4, 12, 4);
}
void gen_c16(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3), g.range(0, 6), THREADS, 0, g.pick(0, 1, 2), 0 };
    gen_prog(g, c, { 4, 5, 2, 2, 1, 1, 1, 1, 1 }, 5, 8, 1);
}
void gen_c16p(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3, 4), g.range(0, 6), g.pick(POOL_GONE, POOL_GONE, SCHEDULE), g.pick(1, 2, 2, 3, 4), g.pick(0, 0, 1), g.below(2) };
    gen_prog(g, c, { 4, 5, 2, 2, 1, 1, 1, 1, 1 }, 4, 10, 1);
}

// ---- failures while commands are applied: every command has an effect of its own -----------------------------------
// p: threads, commands per thread; ops: what each command is
void gen_fault(Rng& g, Case& c) {
    c.p = { g.pick(0, 1, 2), g.below(2) };
    int n = (int)g.range(1, 14);
    for (int i = 0; i < n; i++) {
        Op o;
        o.a[0] = g.below(c.p[0] + 1);
        o.k = (int)g.below(5);
        o.a[2] = g.pick(0, 1, 5, 6, 8, 12, 15);
        o.a[3] = g.below(200);
        c.ops.push_back(o);
    }
}
void run_fault(const Case& c) {
    struct Cmd {
        int k, type;
        int64_t v;
        entity target = entity::invalid(), made = entity::invalid();
        bool recorded = false;
    };
    co_ecs::registry reg;
    std::vector<Cmd> cmds;
    for (auto& o : c.ops) {
        Cmd m{ o.k, (int)(o.a[2] % NT), o.a[3] };
        // entities the command works on: nobody else's
        if (o.k == 2) with_type(m.type, [&]<class C>() { C x(5); m.target = reg.create<C, Pad<1>>(std::move(x), Pad<1>{}); });
        else {
            A x(1000 + (int64_t)cmds.size());
            m.target = reg.create<A>(std::move(x));
        }
        sim::Quiet q;
        if (m.k == 1 && m.type == 0) m.type = 1;
        cmds.push_back(m);
    }
    auto record = [&](int t) {
        for (size_t i = 0; i < cmds.size(); i++) {
            if (c.ops[i].a[0] != t) continue;
            Cmd& m = cmds[i];
            try {
                std::optional<sim::Allow> al;
                if (c.p[1]) al.emplace(FAULTS);
                co_ecs::command_writer w(reg);
                switch (m.k) {
                case 0: with_type(m.type, [&]<class C>() { m.made = w.create<C>(C(m.v)); }); break;
                case 1: with_type(m.type, [&]<class C>() { w.get_entity(m.target).template set<C>(m.v); }); break;
                case 2: with_type(m.type, [&]<class C>() { w.get_entity(m.target).template remove<C>(); }); break;
                case 3: w.destroy(m.target); break;
                default: m.made = w.get_entity(m.target).clone(); break;
                }
                m.recorded = true;
            } catch (const std::exception&) {
                sim::probe(4);
            }
        }
    };
    {
        std::vector<std::thread> ts;
        for (int t = 1; t <= c.p[0]; t++) ts.emplace_back(record, t);
        record(0);
        for (auto& t : ts) t.join();
    }
    int throws = 0;
    while (true) {
        bool ok = true;
        uint64_t before = sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW);
        try {
            std::optional<sim::Allow> al;
            if (throws < 20) al.emplace(FAULTS);
            co_ecs::command_buffer::flush(reg);
        } catch (const std::exception& e) {
            ok = false;
            if (sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW) == before) sim::fail("oracle:failed", "a flush failed without a reason: %s", e.what());
        }
        if (ok) break;
        throws++;
        sim::probe(3);
    }
    sim::settle();
    sim::Quiet q;
    int missing = 0;
    size_t want = 0;
    for (auto& m : cmds) {
        bool talive = reg.alive(m.target);
        if (m.k != 3 && !talive) sim::fail("oracle:stray", "an entity was destroyed that no command destroys");
        bool done = false;
        try {
            switch (m.k) {
            case 0:
            case 4:
                done = m.recorded && reg.alive(m.made);
                want += 1 + done;
                if (done)
                    with_type(m.k == 4 ? 0 : m.type, [&]<class C>() {
                        int64_t v = m.k == 4 ? reg.get_entity(m.target).template get<A>().value() : norm(m.type, m.v);
                        if (reg.get_entity(m.made).template get<C>().value() != v) sim::fail("oracle:value", "the entity made by a command has a wrong component");
                    });
                break;
            case 1:
                want++;
                with_type(m.type, [&]<class C>() {
                    done = reg.template has<C>(m.target);
                    if (done && reg.get_entity(m.target).template get<C>().value() != norm(m.type, m.v)) sim::fail("oracle:value", "a component set by a command has a wrong value");
                });
                if (!reg.template has<A>(m.target)) sim::fail("oracle:components", "a set command lost another component");
                break;
            case 2:
                want++;
                with_type(m.type, [&]<class C>() { done = !reg.template has<C>(m.target); });
                break;
            default:
                done = !talive;
                want += talive;
            }
        } catch (const std::exception& e) {
            sim::fail("oracle:failed", "an entity is alive but cannot be used after failed flushes: %s", e.what());
        }
        if (done && !m.recorded) sim::fail("oracle:stray", "a command that was reported as not recorded took effect");
        missing += m.recorded && !done;
    }
    if (missing > throws) sim::fail("oracle:command-lost", "%d commands had no effect but only %d flushes failed", missing, throws);
    if (reg.size() != want) sim::fail("oracle:size", "%zu entities instead of %zu after the flushes", reg.size(), want);
    size_t n = 0;
    std::as_const(reg).view<const entity&>().each([&](const entity&) { n++; });
    if (n != want) sim::fail("oracle:duplicate", "%zu entities are stored instead of %zu after the flushes", n, want);
    sim::state((uint64_t)missing * 100 + (uint64_t)throws);
}

std::string show(const Case&, const Op& o) {
    char b[160];
    std::snprintf(b, sizeof b, "thread %lld: %s target=%lld type=%s value=%lld", (long long)o.a[0], op_name[o.k % N_OPS], (long long)o.a[1], type_label((int)(o.a[2] % NT)), (long long)o.a[3]);
    return b;
}
std::string show_fault(const Case&, const Op& o) {
    static const char* n[] = { "create", "set", "remove", "destroy", "clone" };
    char b[120];
    std::snprintf(b, sizeof b, "thread %lld records: %s type=%s value=%lld", (long long)o.a[0], n[o.k % 5], type_label((int)(o.a[2] % NT)), (long long)o.a[3]);
    return b;
}

#define PROBES { "flush reports a command that cannot be applied", "flush completed", "reserved entity filled", "flush failed by an injected fault", "recording failed by an injected fault" }
sim::Register reg_c09({ "C09", { { "threads", 3, SCHED, gen_c09, run_content, show, "threads record, the main thread flushes; expected failures; model per thread", 0 },
                                 { "pool", 2, SCHED, gen_c09p, run_content, show, "tasks of a pool record, the main thread flushes", sim::HANG_OK },
                                 { "faults", 2, SCHED | FAULTS, gen_fault, run_fault, show_fault, "allocations, constructors and copies fail while commands are recorded and applied", 0 } },
    PROBES });
sim::Register reg_c10({ "C10", { { "threads", 2, SCHED, gen_c10, run_handles, show, "threads reserve, entities are created and destroyed directly before the synchronisation", 0 },
                                 { "pool", 1, SCHED, gen_c10p, run_handles, show, "tasks of a pool reserve", sim::HANG_OK } },
    PROBES });
sim::Register reg_c16({ "C16", { { "threads", 2, SCHED, gen_c16, run_content, show, "recording threads have exited, flushes come from any thread", 0 },
                                 { "pools", 3, SCHED, gen_c16p, run_content, show, "pools are destroyed between recording, running schedules and flushing", sim::HANG_OK } },
    PROBES });
} // namespace
