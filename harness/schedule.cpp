// C07 conflicting systems never overlap, C08 every system once per run, stages in order
#include "comps.h"

#include <co_ecs/system/named_system.hpp>

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>

using namespace hc;
using co_ecs::command_writer;
using co_ecs::entity;
using co_ecs::registry;
using co_ecs::task_t;
using co_ecs::thread_pool;
using co_ecs::view;
using sim::Case;
using sim::Op;
using sim::Rng;

// an argument the user supplies through the user context
struct UserArg {
    int value;
};
struct UserArgState {
    UserArg* arg;
    UserArgState(registry&, void* ctx) : arg(static_cast<UserArg*>(ctx)) {}
    UserArg& get() noexcept { return *arg; }
    auto access_pattern() const -> co_ecs::access_pattern_t { return {}; }
};
template<>
class co_ecs::system_argument_state_trait<UserArg&> {
public:
    using state_type = UserArgState;
};
// read access to the whole registry, and write access to something that is not stored in the registry, declared by
// argument types of the user
struct Everything {
    const registry* reg;
};
struct EverythingState {
    Everything all;
    EverythingState(registry& r, void*) : all{ &r } {}
    Everything& get() noexcept { return all; }
    auto access_pattern() const -> co_ecs::access_pattern_t { return co_ecs::access_pattern_t(co_ecs::access_type::read); }
};
template<>
class co_ecs::system_argument_state_trait<Everything&> {
public:
    using state_type = EverythingState;
};
struct Resource {
    int64_t value = 0, same = 0;
};
inline Resource resource;
template<bool Const>
struct ResourceState {
    ResourceState(registry&, void*) {}
    std::conditional_t<Const, const Resource&, Resource&> get() noexcept { return resource; }
    auto access_pattern() const -> co_ecs::access_pattern_t {
        return co_ecs::access_pattern_t(Const ? co_ecs::access_type::read : co_ecs::access_type::write, co_ecs::component_meta::of<Resource>());
    }
};
template<>
class co_ecs::system_argument_state_trait<Resource&> {
public:
    using state_type = ResourceState<false>;
};
template<>
class co_ecs::system_argument_state_trait<const Resource&> {
public:
    using state_type = ResourceState<true>;
};

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_TIME) | (1u << sim::K_WEAKCAS)
                           | (1u << sim::K_STALL) | (1u << sim::K_WAKE);

enum Check { OVERLAP = 1, ONCE = 2 };
enum { RA = 1, RB = 2, RJ = 4, RR = 8 };
struct Access {
    const char* name;
    unsigned reads, writes;
    bool exclusive, reads_all, records;
};
const Access access_of[] = {
    { "view<A&>", 0, RA, false, false, false },                                // 0
    { "view<const A&>", RA, 0, false, false, false },                          // 1
    { "view<B&, const A&>", RA, RB, false, false, false },                     // 2
    { "view<const B&>", RB, 0, false, false, false },                          // 3
    { "registry&", 0, 0, true, false, false },                                 // 4
    { "const registry&", 0, 0, false, true, false },                           // 5
    { "command_writer", 0, 0, false, false, true },                            // 6
    { "view<J&>, view<const B&>", RB, RJ, false, false, false },               // 7
    { "command_writer, view<B&>", 0, RB, false, false, true },                 // 8
    { "view<const A&, const B&>", RA | RB, 0, false, false, false },           // 9
    { "view<const entity&, A&>", 0, RA, false, false, false },                 // 10
    { "(nothing)", 0, 0, false, false, false },                                // 11
    { "view<J&>", 0, RJ, false, false, false },                                // 12
    { "view<const J&>, command_writer", RJ, 0, false, false, true },           // 13
    { "view<const B&>, view<B&>", RB, RB, false, false, false },               // 14
    { "view<B&>, view<const A&>, view<const B&>", RA | RB, RB, false, false, false }, // 15
    { "view<const A&, J&>", RA, RJ, false, false, false },                     // 16
    { "UserArg&, view<const A&>", RA, 0, false, false, false },                // 17
    { "view<const entity&, const A&, B&>", RA, RB, false, false, false },      // 18
    { "view<A&, B&, J&>", 0, RA | RB | RJ, false, false, false },              // 19
    { "view<const B&, const A&, const J&>", RA | RB | RJ, 0, false, false, false }, // 20
    { "view<const A&, J&, const entity&, const B&>", RA | RB, RJ, false, false, false }, // 21
    { "Everything&", 0, 0, false, true, false },                               // 22
    { "Resource&", 0, RR, false, false, false },                               // 23
    { "const Resource&, view<const J&>", RR | RJ, 0, false, false, false },    // 24
    { "Everything&, view<A&>", 0, RA, false, true, false },                    // 25
    { "view<B&>, Everything&", 0, RB, false, true, false },                    // 26
    { "view<A&, const B&>", RB, RA, false, false, false },                     // 27
    { "view<const J&, A&>, Resource&", RJ, RA | RR, false, false, false },     // 28
};
constexpr int N_KINDS = 29;
bool conflict(const Access& x, const Access& y) {
    auto uses = [](const Access& a) { return a.exclusive || a.reads_all || a.records || a.reads || a.writes; };
    if ((x.exclusive && uses(y)) || (y.exclusive && uses(x))) return true;
    if ((x.reads_all && y.writes) || (y.reads_all && x.writes)) return true;
    return (x.writes & (y.reads | y.writes)) || (y.writes & (x.reads | x.writes));
}

struct World;
struct Sys {
    World* w;
    int idx, kind, stage, pts; // stage -1: init
    bool main, par, named;
    int executor_from = 0; // part of executors created from then on
    int started = 0, done = 0;
    int out[16] = {}; // what it wrote last for an executor, plain memory
};
struct World {
    unsigned check = 0;
    std::unique_ptr<registry> reg = std::make_unique<registry>();
    std::vector<std::unique_ptr<Sys>> sys;
    std::vector<Sys*> active;
    int executor = -1;      // running
    bool init_phase = false;
    int caller = 0;         // thread that runs the schedule
    std::map<std::pair<int, int>, int> count; // executor, system: runs
    int run_no = 0;         // runs of this executor
    int writes_a = 0, writes_b = 0, writes_j = 0;
    int recorded = 0;
    std::vector<entity> made;
    UserArg ctx[4];
    int n_init = 0;
};

bool part_of(const World& w, const Sys& s) { return s.executor_from <= w.executor; }
void enter(Sys* s) {
    World& w = *s->w;
    {
        sim::Quiet q;
        if (w.check & OVERLAP)
            for (Sys* o : w.active)
                if (conflict(access_of[s->kind], access_of[o->kind]))
                    sim::fail("oracle:overlap", "%ssystem %d (%s) starts while system %d (%s)%s is running", s->main ? "main thread " : "", s->idx, access_of[s->kind].name, o->idx, access_of[o->kind].name,
                        o->main ? " on the main thread" : "");
        w.active.push_back(s);
        if (w.check & ONCE) {
            if (w.executor < 0) sim::fail("oracle:when", "system %d runs although no schedule is running", s->idx);
            if (!part_of(w, *s)) sim::fail("oracle:when", "system %d was added after the executor was created but is run by it", s->idx);
            if (++w.count[{ w.executor, s->idx }] > (s->stage < 0 ? 1 : w.run_no)) sim::fail("oracle:executed-twice", "system %d of %s is executed twice in one run", s->idx, s->stage < 0 ? "init" : "a stage");
            if ((s->stage < 0) != w.init_phase) sim::fail("oracle:when", "%s system %d runs %s", s->stage < 0 ? "init" : "stage", s->idx, w.init_phase ? "when the executor is created" : "in a run");
            if (s->main && sim::tid() != w.caller) sim::fail("oracle:thread", "system %d is pinned to the calling thread %d but runs on thread %d", s->idx, w.caller, sim::tid());
        }
    }
    if (s->w->check & ONCE)
        for (auto& o : w.sys) {
            if (!part_of(w, *o)) continue;
            // earlier stages have finished, visibly; later ones have not begun
            if (o->stage < s->stage) {
                int v = o->out[w.executor & 15]; // instrumented
                int want;
                {
                    sim::Quiet q;
                    want = o->stage < 0 ? 1 : w.run_no;
                    if (w.count[{ w.executor, o->idx }] != want || o->started != o->done) v = -1;
                }
                if (v != w.executor * 1000 + want)
                    sim::fail("oracle:stage-order", "system %d of stage %d starts before system %d of stage %d has finished", s->idx, s->stage, o->idx, o->stage);
            }
        }
    sim::Quiet q;
    s->started++;
}
void leave(Sys* s) {
    World& w = *s->w;
    if (w.check & ONCE) {
        s->out[w.executor & 15] = 0;
        for (int i = 0; i < s->pts; i++) sim::point();
        s->out[w.executor & 15] = w.executor * 1000 + (s->stage < 0 ? 1 : w.run_no);
    }
    sim::Quiet q;
    s->done++;
    std::erase(w.active, s);
}

// all components of a type are equal at any time nobody writes them
struct Uniform {
    int64_t first = -1;
    void operator()(int64_t v, const Sys* s, const char* what) {
        if (first == -1) first = v;
        if (v != first) sim::fail("oracle:torn", "system %d (%s) sees a half finished update of %s", s->idx, access_of[s->kind].name, what);
    }
};
template<typename C>
void bump(Sys* s, C& c) {
    c.assign(c.value() + 1);
    if (s->pts && !s->par) sim::point();
}
template<typename V>
void write_view(Sys* s, V& v) {
    if (!(s->w->check & OVERLAP)) return;
    auto f = [s](auto&... c) {
        auto one = [s](auto& x) {
            using C = std::remove_cvref_t<decltype(x)>;
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>> && !std::is_same_v<C, entity>) bump(s, x);
            else if constexpr (!std::is_same_v<C, entity>) (void)x.value();
        };
        (one(c), ...);
    };
    if (s->par) v.par_each(f);
    else v.each(f);
}
// changes what it may change and changes it back: nothing to see for others, unless they overlap
template<typename V>
void touch_view(Sys* s, V& v) {
    if (!(s->w->check & OVERLAP)) return;
    auto f = [s](auto&... c) {
        auto one = [s](auto& x) {
            using C = std::remove_cvref_t<decltype(x)>;
            if constexpr (!std::is_same_v<C, entity>) {
                int64_t before = x.value();
                if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) {
                    x.assign(-5);
                    if (s->pts && !s->par) sim::point();
                    x.assign(before);
                }
            }
        };
        (one(c), ...);
    };
    if (s->par) v.par_each(f);
    else v.each(f);
}
void use_resource(Sys* s, Resource& r) {
    if (!(s->w->check & OVERLAP)) return;
    if (r.value != r.same) sim::fail("oracle:torn", "system %d (%s) sees a half finished update of the resource", s->idx, access_of[s->kind].name);
    r.value++;
    if (s->pts) sim::point();
    r.same++;
}
void use_resource(Sys* s, const Resource& r) {
    if (!(s->w->check & OVERLAP)) return;
    if (r.value != r.same) sim::fail("oracle:torn", "system %d (%s) sees a half finished update of the resource", s->idx, access_of[s->kind].name);
}
template<typename V>
void read_view(Sys* s, const V& v) {
    if (!(s->w->check & OVERLAP)) return;
    Uniform a, b, j;
    v.each([&](const auto&... c) {
        auto one = [&](const auto& x) {
            using C = std::remove_cvref_t<decltype(x)>;
            if constexpr (std::is_same_v<C, A>) a(x.value(), s, "A");
            else if constexpr (std::is_same_v<C, B>) b(x.value(), s, "B");
            else if constexpr (std::is_same_v<C, J>) j(x.value(), s, "J");
        };
        (one(c), ...);
        if (s->pts) sim::point();
    });
}
void record(Sys* s, command_writer w) {
    w.create<Tg2>(Tg2(1));
    sim::Quiet q;
    s->w->recorded++;
}
void exclusive(Sys* s, registry& r) {
    if (!(s->w->check & OVERLAP)) return;
    World& w = *s->w;
    view<A&> va{ r };
    view<const A&> ra{ r };
    read_view(s, ra);
    auto f = r.view<const A&>().single();
    int64_t v = f ? std::get<0>(*f).value() : 0;
    if (f) {
        entity e = r.create<A>(A(v));
        sim::Quiet q;
        w.made.push_back(e);
    }
    if (w.made.size() > 2) {
        entity e;
        {
            sim::Quiet q;
            e = w.made.front();
            w.made.erase(w.made.begin());
        }
        r.destroy(e);
    }
    r.view<J&>().each([&](J& x) { bump(s, x); });
}
struct Scope {
    Sys* s;
    explicit Scope(Sys* x) : s(x) {
        enter(s);
        for (int i = 0; i < s->pts; i++) sim::point();
    }
    ~Scope() {
        for (int i = 0; i < s->pts; i++) sim::point();
        leave(s);
    }
};
void wrote(Sys* s, int c) {
    sim::Quiet q;
    (c == RA ? s->w->writes_a : c == RB ? s->w->writes_b : s->w->writes_j)++;
}

// what a system captures: it must be intact whenever the system runs, whichever executor runs it
struct Ref {
    Sys* p;
    std::string text;
    explicit Ref(Sys* x) : p(x), text("captured by a system, long enough for the heap") {}
    Ref(const Ref&) = default;
    Ref(Ref&& o) noexcept : p(std::exchange(o.p, nullptr)), text(std::move(o.text)) {}
    operator Sys*() const {
        if (!p || text.compare("captured by a system, long enough for the heap")) sim::fail("oracle:captures", "a system is executed without what it captured");
        return p;
    }
    Sys* operator->() const { return *this; }
};
template<typename Add>
void add_kind(Sys* sys, Add&& add) {
    Ref s(sys); // not const: moving the closure moves it
    switch (sys->kind) {
    case 0: add([s](view<A&> v) { Scope x(s); write_view(s, v); wrote(s, RA); }); break;
    case 1: add([s](view<const A&> v) { Scope x(s); read_view(s, v); }); break;
    case 2: add([s](view<B&, const A&> v) { Scope x(s); write_view(s, v); wrote(s, RB); }); break;
    case 3: add([s](view<const B&> v) { Scope x(s); read_view(s, v); }); break;
    case 4: add([s](registry& r) { Scope x(s); exclusive(s, r); wrote(s, RJ); }); break;
    case 5: add([s](const registry& r) { Scope x(s); read_view(s, r.view<const A&>()); read_view(s, r.view<const B&>()); read_view(s, r.view<const J&>()); }); break;
    case 6: add([s](command_writer c) { Scope x(s); record(s, c); }); break;
    case 7: add([s](view<J&> v, view<const B&> b) { Scope x(s); write_view(s, v); read_view(s, b); wrote(s, RJ); }); break;
    case 8: add([s](command_writer c, view<B&> v) { Scope x(s); record(s, c); write_view(s, v); wrote(s, RB); }); break;
    case 9: add([s](view<const A&, const B&> v) { Scope x(s); read_view(s, v); }); break;
    case 10: add([s](view<const entity&, A&> v) { Scope x(s); write_view(s, v); wrote(s, RA); }); break;
    case 11: add([s]() { Scope x(s); }); break;
    case 12: add([s](view<J&> v) { Scope x(s); write_view(s, v); wrote(s, RJ); }); break;
    case 13: add([s](view<const J&> v, command_writer c) { Scope x(s); read_view(s, v); record(s, c); }); break;
    case 14: add([s](view<const B&> r, view<B&> v) { Scope x(s); read_view(s, r); write_view(s, v); wrote(s, RB); }); break;
    case 15: add([s](view<B&> v, view<const A&> a, view<const B&> b) { Scope x(s); write_view(s, v); read_view(s, a); read_view(s, b); wrote(s, RB); }); break;
    case 16: add([s](view<const A&, J&> v) { Scope x(s); write_view(s, v); wrote(s, RJ); }); break;
    case 18: add([s](view<const entity&, const A&, B&> v) { Scope x(s); write_view(s, v); wrote(s, RB); }); break;
    case 19: add([s](view<A&, B&, J&> v) { Scope x(s); touch_view(s, v); }); break;
    case 20: add([s](view<const B&, const A&, const J&> v) { Scope x(s); read_view(s, v); }); break;
    case 21: add([s](view<const A&, J&, const entity&, const B&> v) { Scope x(s); touch_view(s, v); }); break;
    case 22: add([s](Everything& r) { Scope x(s); read_view(s, r.reg->view<const A&>()); read_view(s, r.reg->view<const B&>()); read_view(s, r.reg->view<const J&>()); }); break;
    case 23: add([s](Resource& r) { Scope x(s); use_resource(s, r); }); break;
    case 24: add([s](const Resource& r, view<const J&> v) { Scope x(s); use_resource(s, r); read_view(s, v); }); break;
    case 25: add([s](Everything& r, view<A&> v) { Scope x(s); read_view(s, r.reg->view<const B&>()); write_view(s, v); wrote(s, RA); }); break;
    case 26: add([s](view<B&> v, Everything& r) { Scope x(s); write_view(s, v); read_view(s, r.reg->view<const J&>()); wrote(s, RB); }); break;
    case 27: add([s](view<A&, const B&> v) { Scope x(s); touch_view(s, v); }); break;
    case 28: add([s](view<const J&, A&> v, Resource& r) { Scope x(s); touch_view(s, v); use_resource(s, r); }); break;
    default: add([s](UserArg& u, view<const A&> v) {
        Scope x(s);
        if (s->w->check & ONCE && &u != &s->w->ctx[s->w->executor & 3]) sim::fail("oracle:context", "system %d gets the user context of another executor", s->idx);
        read_view(s, v);
    });
    }
}

enum { SYS = 0, EXECUTOR, RUN, RUN_IN_TASK, POOL, BACKGROUND, STAGE };
// p: workers (0: default pool), entities
void gen_sched(Rng& g, Case& c, bool once) {
    c.p = { g.pick(0, 1, 2, 2, 3, 3, 4, 5), g.range(0, 5) };
    int stages = (int)g.range(0, 3), have = 0;
    auto add = [&](int k, int64_t a0 = 0) {
        Op o;
        o.k = k;
        o.a[0] = a0;
        c.ops.push_back(o);
    };
    // most schedules are about few kinds of systems, so that conflicts are likely
    int kinds[3] = { (int)g.below(N_KINDS), (int)g.below(N_KINDS), (int)g.below(N_KINDS) };
    bool few = g.chance(1, 2);
    auto systems = [&](int n) {
        for (int i = 0; i < n; i++) {
            if (have < stages && g.chance(1, 3)) add(STAGE), have++;
            Op o;
            o.k = SYS;
            o.a[0] = g.chance(1, 5) ? -1 : g.below(have ? have : 1);
            if (!have) o.a[0] = -1;
            o.a[1] = few ? kinds[g.below(3)] : (int)g.below(N_KINDS);
            o.a[2] = g.pick(0, 0, 1, 3, 6);
            o.a[3] = g.chance(1, 3);
            o.a[4] = g.chance(1, 5);
            o.a[5] = g.chance(1, 6);
            c.ops.push_back(o);
        }
    };
    if (stages) add(STAGE), have++;
    systems((int)g.range(1, g.chance(1, 3) ? g.chance(1, 6) ? 30 : 12 : 5));
    while (have < stages) add(STAGE), have++;
    if (g.chance(1, 3)) add(BACKGROUND, g.range(1, 3));
    add(EXECUTOR);
    int runs = (int)g.range(1, 4);
    for (int i = 0; i < runs; i++) {
        if (once && g.chance(1, 6)) add(POOL, g.pick(1, 2, 3));
        if (once && g.chance(1, 6)) systems((int)g.range(1, 2));
        if (once && g.chance(1, 5)) add(EXECUTOR);
        if (g.chance(1, 8)) add(BACKGROUND, g.range(1, 3));
        add(g.chance(1, 5) ? RUN_IN_TASK : RUN, g.below(4));
    }
}
void gen_overlap(Rng& g, Case& c) { gen_sched(g, c, false); }
void gen_once(Rng& g, Case& c) { gen_sched(g, c, true); }

void run_sched(const Case& c, unsigned check) {
    sim::set_hw_threads(3);
    resource = {};
    World w;
    w.check = check;
    for (int i = 0; i < 4; i++) w.ctx[i].value = i;
    std::optional<thread_pool> pool;
    if (c.p[0]) pool.emplace((size_t)c.p[0]);
    for (int i = 0; i < c.p[1]; i++) switch (i % 5) {
        case 0: w.reg->create<A, B>(A(0), B(0)); break;
        case 1: w.reg->create<A, J>(A(0), J(0)); break;
        case 2: w.reg->create<B, J, A>(B(0), J(0), A(0)); break;
        case 3: w.reg->create<A>(A(0)); break;
        default: w.reg->create<A, B, G>(A(0), B(0), G(0));
        }
    size_t initial = (size_t)c.p[1];
    co_ecs::schedule sched;
    std::vector<co_ecs::stage*> stages;
    struct Ex {
        std::unique_ptr<co_ecs::schedule_executor> ex;
        int runs = 0;
    };
    std::vector<Ex> execs;
    std::vector<task_t*> bg;
    auto finished = [&](const char* when) {
        sim::Quiet q;
        if (check & ONCE) {
            for (auto& s : w.sys) {
                if (!part_of(w, *s)) continue;
                int want = s->stage < 0 ? 1 : w.run_no, n = w.count[{ w.executor, s->idx }];
                if (n != want) sim::fail("oracle:not-executed", "system %d of stage %d was executed %d times instead of %d %s", s->idx, s->stage, n, want, when);
                if (s->started != s->done) sim::fail("oracle:returned-early", "system %d is still running %s", s->idx, when);
            }
            // recorded commands have been applied
            size_t n = initial + (size_t)w.recorded + w.made.size();
            if (w.reg->size() != n) sim::fail("oracle:not-flushed", "%zu entities instead of %zu %s: recorded commands were not applied", w.reg->size(), n, when);
        }
        if (check & OVERLAP) {
            if (!w.active.empty() && !(check & ONCE)) {
                // whether everything has finished is not the question here
            }
        }
    };
    auto values = [&] {
        if (!(check & OVERLAP)) return;
        sim::Quiet q;
        if (!w.active.empty()) return;
        bool plain = true; // B is written for entities with A only by some, J by exclusive systems too
        for (auto& s : w.sys) plain &= s->kind != 4;
        std::as_const(*w.reg).view<const A&>().each([&](const A& a) {
            if (a.value() != w.writes_a) sim::fail("oracle:lost-write", "A is %lld after %d systems incremented it", (long long)a.value(), w.writes_a);
        });
        std::as_const(*w.reg).view<const B&>().each([&](const B& b) {
            if (b.value() != w.writes_b) sim::fail("oracle:lost-write", "B is %lld after %d systems incremented it", (long long)b.value(), w.writes_b);
        });
        std::as_const(*w.reg).view<const J&>().each([&](const J& j) {
            if (j.value() != w.writes_j) sim::fail("oracle:lost-write", "J is %lld after %d systems incremented it", (long long)j.value(), w.writes_j);
        });
        (void)plain;
    };
    auto wait_bg = [&] {
        for (auto* t : bg) thread_pool::get().wait(t);
        bg.clear();
    };
    for (auto& o : c.ops) {
        switch (o.k) {
        case STAGE: stages.push_back(&sched.begin_stage("stage")); break;
        case SYS: {
            int st = (int)o.a[0];
            if (stages.empty()) st = -1;
            else if (st >= 0) st %= (int)stages.size();
            Sys* s;
            {
                sim::Quiet q;
                w.sys.push_back(std::make_unique<Sys>(Sys{ &w, (int)w.sys.size(), (int)(o.a[1] % N_KINDS), st, (int)o.a[2], (o.a[3] & 1) != 0, (o.a[4] & 1) != 0, (o.a[5] & 1) != 0 }));
                s = w.sys.back().get();
                s->executor_from = (int)execs.size();
            }
            add_kind(s, [&]<typename F>(F f) {
                auto put = [&](auto&&... x) {
                    if (st < 0) sched.add_init_system(std::forward<decltype(x)>(x)...);
                    else stages[(size_t)st]->add_system(std::forward<decltype(x)>(x)...);
                };
                if (s->main) put(co_ecs::main_thread_execution_policy, std::move(f));
                else if (s->named && s->pts == 1) put(std::make_unique<co_ecs::named_system<F>>(std::move(f), "named"));
                else if (s->named) put(std::make_unique<co_ecs::system<F>>(std::move(f)));
                else put(std::move(f));
            });
            break;
        }
        case EXECUTOR: {
            {
                sim::Quiet q;
                w.executor = (int)execs.size();
                w.run_no = 0;
                w.init_phase = true;
                w.caller = sim::tid();
            }
            auto ex = sched.create_executor(*w.reg, &w.ctx[w.executor & 3]);
            finished("when the executor was created");
            values();
            sim::probe(0);
            sim::Quiet q;
            w.init_phase = false;
            execs.push_back({ std::move(ex) });
            w.executor = -1;
            break;
        }
        case RUN:
        case RUN_IN_TASK: {
            if (execs.empty()) break;
            Ex& ex = execs[(size_t)o.a[0] % execs.size()];
            auto run = [&] {
                {
                    sim::Quiet q;
                    w.executor = (int)(&ex - execs.data());
                    w.run_no = ++ex.runs;
                    w.caller = sim::tid();
                }
                ex.ex->run_once();
                finished("when the run returned");
                sim::Quiet q;
                w.executor = -1;
            };
            if (o.k == RUN) run(), sim::probe(1);
            else {
                auto* t = thread_pool::get().submit([&run] { run(); });
                thread_pool::get().wait(t);
                sim::probe(2);
            }
            values();
            break;
        }
        case POOL:
            if (!pool) break;
            wait_bg();
            pool.reset();
            pool.emplace((size_t)o.a[0]);
            sim::probe(3);
            break;
        default:
            for (int i = 0; i < o.a[0]; i++)
                bg.push_back(thread_pool::get().submit([] {
                    for (int k = 0; k < 10; k++) sim::point();
                }));
        }
    }
    wait_bg();
    execs.clear();
    sim::Quiet q;
    sim::state((uint64_t)w.writes_a * 10007 + (uint64_t)w.writes_b * 101 + (uint64_t)w.writes_j + (uint64_t)w.recorded * 1000003);
}
void run_overlap(const Case& c) { run_sched(c, OVERLAP); }
void run_once_(const Case& c) { run_sched(c, ONCE); }

std::string show(const Case&, const Op& o) {
    char b[200];
    switch (o.k) {
    case SYS:
        std::snprintf(b, sizeof b, "add system of %s%lld: %s%s%s, %lld points", o.a[0] < 0 ? "init " : "stage ", (long long)o.a[0], access_of[o.a[1] % N_KINDS].name, o.a[3] & 1 ? ", main thread" : "",
            o.a[4] & 1 ? ", par_each" : "", (long long)o.a[2]);
        break;
    case EXECUTOR: return "create an executor";
    case RUN: return "run_once";
    case RUN_IN_TASK: return "run_once in a task";
    case POOL: std::snprintf(b, sizeof b, "replace the pool by one of %lld workers", (long long)o.a[0]); break;
    case STAGE: return "begin a stage";
    default: std::snprintf(b, sizeof b, "%lld other tasks", (long long)o.a[0]);
    }
    return b;
}
#define PROBES { "executor created", "run from the main thread", "run in a task", "pool replaced between runs" }
sim::Register r7({ "C07", { { "overlap", 1, SCHED, gen_overlap, run_overlap, show, "systems of every kind of access, main thread and init systems", sim::HANG_OK } }, PROBES });
sim::Register r8({ "C08", { { "once", 1, SCHED, gen_once, run_once_, show, "several executors, stages extended in any order, pools replaced", sim::HANG_OK } }, PROBES });
} // namespace
