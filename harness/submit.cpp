// C19 a failed submission has no effect, and nothing keeps running behind the caller's back
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/schedule.hpp>
#include <co_ecs/thread_pool/parallel_for.hpp>
#include <co_ecs/thread_pool/thread_pool.hpp>

#include "../sim/dsim.h"

#include <atomic>
#include <list>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <algorithm>
#include <chrono>
#include <thread>
#include <vector>

using co_ecs::task_t;
using co_ecs::thread_pool;
using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_TIME) | (1u << sim::K_WEAKCAS)
                           | (1u << sim::K_STALL) | (1u << sim::K_WAKE);
constexpr unsigned F = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);

struct A { int v; };
struct B { int v; };

struct World;
struct Node {
    World* w;
    int idx, pts, children, mode;
    Node* parent; // submitted with this one as parent
    task_t* task = nullptr;
    int state = 0; // 0 not submitted, 1 submitted, 2 submission failed, 3 being submitted
    int started = 0, done = 0;
};
struct World {
    std::list<Node> nodes;
    int failures = 0, created = 0, active_elems = 0;
    uint64_t injected() const { return sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW); }
};

// what callables capture: copying may fail; destroyed exactly once
struct Cap {
    Node* n;
    uint64_t magic = 0xca97u;
    char fill[40] = {};
    explicit Cap(Node* x) : n(x) {}
    Cap(const Cap& o) : n(o.n) {
        o.check("copied");
        if (sim::inject(sim::K_THROW)) throw std::runtime_error("copying a callable failed");
    }
    void check(const char* what) const {
        sim::Quiet q;
        if (magic != 0xca97u) sim::fail("oracle:captures", "what a callable captured is %s after it was destroyed", what);
    }
    ~Cap() {
        check("destroyed");
        magic = 0xdead;
    }
};

void body(Node* n);
// submits n, which may fail; true if it was submitted
bool submit(Node* n, bool moved) {
    uint64_t before = n->w->injected();
    {
        sim::Quiet q;
        n->state = 3;
    }
    task_t* parent = n->parent ? n->parent->task : nullptr;
    try {
        Cap cap(n);
        auto f = [cap] {
            cap.check("used");
            body(cap.n);
        };
        sim::Allow a(F);
        task_t* t;
        if (n->mode == 1) t = thread_pool::current_worker().submit(f, parent);
        else if (moved) t = thread_pool::get().submit(std::move(f), parent);
        else t = thread_pool::get().submit(f, parent);
        sim::Quiet q;
        n->task = t;
        n->state = 1;
        return true;
    } catch (const std::exception& e) {
        sim::Quiet q;
        n->w->failures++;
        n->state = 2;
        if (n->started) sim::fail("oracle:failed-executed", "submitting task %d failed with '%s' but it is executed", n->idx, e.what());
        if (n->w->injected() == before) sim::fail("oracle:failed", "submitting task %d failed without a cause: %s", n->idx, e.what());
        sim::probe(0);
        return false;
    }
}
void body(Node* n) {
    {
        sim::Quiet q;
        if (n->state == 2) sim::fail("oracle:failed-executed", "task %d is executed although its submission failed", n->idx);
        if (++n->started > 1) sim::fail("oracle:executed-twice", "task %d is executed twice", n->idx);
    }
    for (int i = 0; i < n->pts; i++) sim::point();
    if (n->mode == 2) {
        // threads use their scratch memory for the first time
        int hits = 0;
        uint64_t before = n->w->injected();
        std::atomic<int> sum{ 0 };
        const int count = 5;
        try {
            std::vector<int> idx(count, 1);
            sim::Allow a(F);
            co_ecs::parallel_for(idx, [&](int i) { sum.fetch_add(i); });
            hits = sum.load();
            if (hits != count) sim::fail("oracle:applied", "parallel_for in a task applied the function %d times instead of %d", hits, count);
        } catch (const std::exception& e) {
            sim::Quiet q;
            n->w->failures++;
            sim::probe(7);
            if (n->w->injected() == before) sim::fail("oracle:failed", "parallel_for in a task failed without a cause: %s", e.what());
        }
    }
    std::vector<Node*> kids;
    for (int i = 0; i < n->children; i++) {
        Node* c;
        {
            sim::Quiet q;
            World* w = n->w;
            // the own task is known to others only once submit has returned; children wait for no parent then
            w->nodes.push_back(Node{ w, w->created++, n->pts / 2, 0, n->mode, nullptr });
            c = &w->nodes.back();
            kids.push_back(c);
        }
        submit(c, i & 1);
    }
    for (Node* c : kids)
        if (c->state == 1) {
            thread_pool::get().wait(c->task);
            if (c->done != 1) sim::fail("oracle:wait-incomplete", "waiting for task %d returned before it was executed", c->idx);
        }
    n->done++;
    sim::Quiet q;
    std::vector<Node*>().swap(kids);
}

enum { SUBMIT = 0, WAIT, MANY, FOR, POOL, SYSTEM, EXECUTOR, RUN, STAGE, FULL };

struct Sys {
    int idx, stage, kind, pts;
    bool main, bad;
    int started = 0, done = 0;
    int runs = 0;
};
struct Tok { // captured by systems
    Sys* s;
    std::string text = "captured by a system, kept on the heap";
    explicit Tok(Sys* x) : s(x) {}
    Tok(const Tok& o) : s(o.s), text(o.text) {
        if (sim::inject(sim::K_THROW)) throw std::runtime_error("copying a system failed");
    }
    Tok(Tok&&) noexcept = default;
};
void run_system(Sys* s) {
    {
        sim::Quiet q;
        s->started++;
    }
    for (int i = 0; i < s->pts; i++) sim::point();
    s->runs++; // plain
    bool bad = s->bad;
    {
        sim::Quiet q;
        s->done++;
    }
    if (bad && s->main) throw std::runtime_error("a main thread system failed");
}

void gen(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 2, 3, 4), g.below(4) };
    int n = (int)g.range(2, 14);
    bool many = g.chance(1, 12);
    int stage = 0;
    for (int i = 0; i < n; i++) {
        Op o;
        switch (c.p[1]) {
        case 0: o.k = (int)g.pick(SUBMIT, SUBMIT, SUBMIT, SUBMIT, WAIT); break;
        case 1: o.k = (int)g.pick(FOR, FOR, FOR, SUBMIT, WAIT); break;
        case 2: o.k = (int)g.pick(STAGE, SYSTEM, SYSTEM, SYSTEM, SYSTEM, EXECUTOR, RUN, RUN, SUBMIT); break;
        default: o.k = (int)g.pick(SUBMIT, SUBMIT, WAIT, FOR, SYSTEM, SYSTEM, STAGE, EXECUTOR, RUN, POOL);
        }
        if (i == 0 && g.chance(1, 3)) o.k = POOL;
        if (many && c.p[1] == 0 && g.chance(1, 4)) o.k = MANY;
        if (o.k == STAGE) stage++;
        o.a[0] = g.chance(1, 3) ? -1 : g.below(40);
        o.a[1] = g.pick(0, 0, 1, 4);
        o.a[2] = g.chance(1, 3) ? g.range(1, 4) : 0;
        o.a[3] = g.below(2);
        o.a[4] = o.k == POOL ? g.pick(1, 2, 3, 4) : o.k == FOR ? g.range(1, 14) : o.k == MANY ? g.pick(40, 200, 1040, 1100, 2060) : g.below(3);
        o.a[5] = o.k == SUBMIT ? g.pick(0, 0, 1, 2) : g.chance(1, 4);
        c.ops.push_back(o);
    }
}

// the queue of the calling thread is almost full when a parallel_for or a schedule hands out its work
void gen_full(Rng& g, Case& c) {
    c.p = { g.pick(2, 3, 4), 0 };
    auto add = [&](int k) -> Op& {
        Op o;
        o.k = k;
        o.a[0] = g.below(8);
        o.a[1] = g.pick(0, 1, 4);
        o.a[3] = k == SYSTEM ? g.chance(1, 4) : g.below(2);
        o.a[4] = k == FOR ? g.range(c.p[0], 12) : k == FULL ? 1024 - g.range(0, c.p[0]) : g.below(3);
        c.ops.push_back(o);
        return c.ops.back();
    };
    int what = (int)g.below(5);
    if (what < 2) add(FULL), add(FOR);
    else if (what == 2) {
        add(SUBMIT).a[0] = -1;
        add(FULL);
        Op& o = add(MANY);
        o.a[0] = 0, o.a[4] = g.range(2, 7);
        add(WAIT).a[0] = -1;
    } else {
        add(STAGE);
        int n = (int)g.range(2, 6);
        for (int i = 0; i < n; i++) {
            Op& o = add(SYSTEM);
            o.a[0] = 0;
            o.a[4] = g.pick(0, 1, o.a[4]);
        }
        add(EXECUTOR);
        add(FULL);
        add(RUN);
    }
}
// systems of the main thread throw while others are running
void gen_bad(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3, 4), 0 };
    int runs = (int)g.range(1, 3), n = (int)g.range(2, 7), stages = (int)g.range(1, 2);
    auto add = [&](int k) -> Op& {
        Op o;
        o.k = k;
        o.a[0] = g.below(8);
        o.a[1] = g.pick(0, 1, 4, 12);
        o.a[4] = g.below(3);
        c.ops.push_back(o);
        return c.ops.back();
    };
    for (int i = 0; i < stages; i++) add(STAGE);
    for (int i = 0; i < n; i++) {
        Op& o = add(SYSTEM);
        o.a[3] = g.chance(1, 3);
        o.a[5] = o.a[3] && g.chance(1, 2);
    }
    add(EXECUTOR);
    for (int i = 0; i < runs; i++) add(RUN);
}

World* cur;
std::atomic<bool> gate;
std::atomic<int> at_gate;
void hang(void*) {
    if (cur && cur->failures) sim::fail("oracle:wait-hangs", "after %d failed submissions nothing makes progress any more", cur->failures);
}

void run(const Case& c) {
    sim::set_hw_threads(2);
    World w;
    cur = &w;
    sim::on_hang(hang, nullptr);
    {
    std::optional<thread_pool> pool;
    pool.emplace((size_t)c.p[0]);
    std::vector<Node*> known; // submitted from here
    auto check = [&](Node* root) {
        std::vector<Node*> covered;
        {
            sim::Quiet q;
            for (auto& n : w.nodes) {
                bool cov = false;
                for (Node* x = &n; x; x = x->parent) cov |= x == root;
                if (cov && n.state == 1) covered.push_back(&n);
            }
        }
        for (Node* n : covered) {
            int d = n->done; // instrumented
            if (d != 1) sim::fail("oracle:wait-incomplete", "waiting for task %d returned but task %d was executed %d times", root->idx, n->idx, d);
        }
        sim::Quiet q;
        std::vector<Node*>().swap(covered);
    };
    auto settle_all = [&] {
        int n = 0;
        for (Node* k : known)
            if (k->state == 1) {
                pool->wait(k->task);
                if (n++ < 50 || k == known.back()) check(k);
            }
        sim::Quiet q;
        known.clear();
        w.nodes.clear();
    };
    std::unique_ptr<co_ecs::registry> reg = std::make_unique<co_ecs::registry>();
    for (int i = 0; i < 3; i++) reg->create<A, B>({ i }, { i });
    std::unique_ptr<co_ecs::schedule> sched = std::make_unique<co_ecs::schedule>();
    std::vector<co_ecs::stage*> stages;
    std::list<Sys> systems;
    struct Ex {
        std::unique_ptr<co_ecs::schedule_executor> ex;
        std::vector<Sys*> of;
    };
    std::vector<Ex> execs;
    auto failed = [&](const char* what, const std::exception& e, uint64_t before, bool expected) {
        gate.store(true);
        sim::Quiet q;
        w.failures++;
        if (!expected && w.injected() == before) sim::fail("oracle:failed", "%s failed without a cause: %s", what, e.what());
        sim::probe(1);
    };
    // nothing of an operation that has failed may still be running
    auto idle = [&](const char* what) {
        sim::Quiet q;
        for (auto& s : systems)
            if (s.started != s.done) sim::fail("oracle:left-running", "%s failed and left system %d running", what, s.idx);
        if (w.active_elems) sim::fail("oracle:left-running", "%s failed and left the function running for %d elements", what, w.active_elems);
    };
    for (auto& o : c.ops) {
        switch (o.k) {
        case SUBMIT:
        case MANY: {
            // a task that has completed may be replaced by one submitted 4096 tasks later: stay below that
            int n = o.k == MANY ? (int)o.a[4] : 1;
            if (w.created + n > 3800) break;
            Node* first = nullptr;
            for (int i = 0; i < n; i++) {
                Node* x;
                {
                    sim::Quiet q;
                    Node* parent = o.a[0] >= 0 && !known.empty() ? known[(size_t)o.a[0] % known.size()] : nullptr;
                    if (i && first) parent = first;
                    if (parent && parent->state != 1) parent = nullptr;
                    w.nodes.push_back(Node{ &w, w.created++, n > 1 ? 0 : (int)o.a[1], n > 1 ? 0 : (int)o.a[2], n > 1 ? 0 : (int)o.a[5], parent });
                    x = &w.nodes.back();
                    known.push_back(x);
                }
                if (submit(x, o.a[3]) && !first) first = x;
            }
            break;
        }
        case FULL: {
            gate.store(false);
            at_gate.store(0);
            for (size_t i = 1; i < pool->num_workers(); i++)
                pool->submit([] {
                    if (sim::tid() == 0) return;
                    at_gate.fetch_add(1);
                    while (!gate.load()) std::this_thread::sleep_for(std::chrono::milliseconds(3));
                });
            for (int i = 0; i < 50 && at_gate.load() + 1 < (int)pool->num_workers(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(2));
            for (int i = 0; i < o.a[4]; i++) {
                pool->submit([] {});
                w.created++;
            }
            sim::probe(6);
            continue;
        }
        case WAIT:
            if (!known.empty()) {
                Node* n = known[(size_t)(o.a[0] + 1) % known.size()];
                if (n->state != 1) break;
                pool->wait(n->task);
                check(n);
                sim::probe(2);
            }
            break;
        case FOR: {
            std::vector<int> elems((size_t)o.a[4], 0), idx((size_t)o.a[4]);
            for (size_t i = 0; i < idx.size(); i++) idx[i] = (int)i;
            uint64_t before = w.injected();
            bool ok = true;
            try {
                auto f = [&](int i) {
                    {
                        sim::Quiet q;
                        w.active_elems++;
                    }
                    for (int k = 0; k < o.a[1]; k++) sim::point();
                    elems[(size_t)i]++;
                    sim::Quiet q;
                    w.active_elems--;
                };
                sim::Allow a(F);
                co_ecs::parallel_for(idx, f);
            } catch (const std::exception& e) {
                ok = false;
                failed("parallel_for", e, before, false);
            }
            idle("parallel_for");
            std::vector<int> now;
            for (int i : elems) { // instrumented
                if (i > 1 || (ok && i != 1)) sim::fail("oracle:applied", "parallel_for that %s applied the function %d times to an element", ok ? "succeeded" : "failed", i);
                now.push_back(i);
            }
            if (!ok) {
                std::this_thread::sleep_for(std::chrono::milliseconds(30));
                if (now != elems) sim::fail("oracle:left-running", "parallel_for failed but the function is applied later");
                sim::probe(3);
            }
            break;
        }
        case POOL: {
            settle_all();
            pool.reset();
            for (int attempt = 0; !pool; attempt++) {
                uint64_t before = w.injected() + sim::injected(sim::K_THREAD);
                try {
                    sim::Allow a(attempt < 4 ? F | (1u << sim::K_THREAD) : 0);
                    pool.emplace((size_t)o.a[4]);
                } catch (const std::exception& e) {
                    sim::Quiet q;
                    sim::probe(4);
                    if (w.injected() + sim::injected(sim::K_THREAD) == before) sim::fail("oracle:failed", "creating a pool failed without a cause: %s", e.what());
                    if (int n = sim::threads_alive(); n != 1) sim::fail("oracle:left-running", "creating a pool failed and left %d threads", n - 1);
                }
            }
            break;
        }
        case STAGE: {
            uint64_t before = w.injected();
            try {
                sim::Allow a(F);
                auto& s = sched->begin_stage("stage");
                sim::Quiet q;
                stages.push_back(&s);
            } catch (const std::exception& e) {
                failed("begin_stage", e, before, false);
            }
            break;
        }
        case SYSTEM: {
            Sys* s;
            {
                sim::Quiet q;
                int st = stages.empty() || o.a[0] < 0 ? -1 : (int)((size_t)o.a[0] % stages.size());
                systems.push_back(Sys{ (int)systems.size(), st, (int)(o.a[4] % 3), (int)o.a[1], o.a[3] != 0, o.a[5] && st >= 0 });
                s = &systems.back();
            }
            uint64_t before = w.injected();
            try {
                Tok t(s);
                auto put = [&](auto f) {
                    sim::Allow a(F);
                    if (s->stage < 0) {
                        if (s->main) sched->add_init_system(co_ecs::main_thread_execution_policy, std::move(f));
                        else sched->add_init_system(std::move(f));
                    } else {
                        if (s->main) stages[(size_t)s->stage]->add_system(co_ecs::main_thread_execution_policy, std::move(f));
                        else stages[(size_t)s->stage]->add_system(std::move(f));
                    }
                };
                if (s->kind == 0) put([t] { run_system(t.s); });
                else if (s->kind == 1) put([t](co_ecs::view<const A&>) { run_system(t.s); });
                else put([t](co_ecs::view<B&>) { run_system(t.s); });
            } catch (const std::exception& e) {
                failed("adding a system", e, before, false);
                sim::Quiet q;
                s->stage = -2; // not part of the schedule
            }
            break;
        }
        case EXECUTOR:
        case RUN: {
            if (o.k == RUN && execs.empty()) break;
            std::vector<Sys*> of;
            bool expected = false;
            Ex* ex = o.k == RUN ? &execs[(size_t)(o.a[0] + 1) % execs.size()] : nullptr;
            std::vector<int> old;
            {
                sim::Quiet q;
                if (ex) of = ex->of;
                else
                    for (auto& s : systems)
                        if (s.stage != -2) of.push_back(&s);
                for (auto& s : systems) old.push_back(s.started);
                for (auto* s : of) expected |= ex && s->stage >= 0 && s->bad && s->main;
            }
            uint64_t before = w.injected();
            bool ok = true;
            auto ran = [&](Sys* s, int want, bool at_most) {
                int r = s->runs; // instrumented
                sim::Quiet q;
                int n = s->started - old[(size_t)s->idx];
                (void)r;
                if (n > want || (!at_most && n != want)) sim::fail("oracle:executed", "system %d was executed %d times instead of %d", s->idx, n, want);
            };
            try {
                sim::Allow a(F);
                if (ex) ex->ex->run_once();
                else {
                    auto e = sched->create_executor(*reg);
                    sim::Quiet q;
                    execs.push_back({ std::move(e), of });
                }
            } catch (const std::exception& e) {
                ok = false;
                failed(ex ? "run_once" : "create_executor", e, before, expected);
                sim::probe(5);
            }
            idle(ex ? "run_once" : "create_executor");
            if (ok && expected) sim::fail("oracle:failed", "a main thread system has thrown but run_once reports success");
            std::vector<Sys*> all;
            {
                sim::Quiet q;
                for (auto& s : systems) all.push_back(&s);
            }
            for (Sys* s : all) {
                bool part;
                {
                    sim::Quiet q;
                    part = std::find(of.begin(), of.end(), s) != of.end() && (s->stage >= 0) == (ex != nullptr);
                }
                ran(s, part ? 1 : 0, !ok);
            }
            if (!ok) std::this_thread::sleep_for(std::chrono::milliseconds(30));
            idle(ex ? "run_once" : "create_executor");
            break;
        }
        }
        gate.store(true);
    }
    gate.store(true);
    sim::settle();
    settle_all();
    // everything works as if nothing had failed
    {
        std::vector<int> v(9, 0), ix{ 0, 1, 2, 3, 4, 5, 6, 7, 8 };
        co_ecs::parallel_for(ix, [&](int i) { v[(size_t)i]++; });
        for (int x : v)
            if (x != 1) sim::fail("oracle:applied", "parallel_for applied the function %d times to an element", x);
        for (auto& e : execs) {
            std::vector<int> old;
            {
                sim::Quiet q;
                bool bad = false;
                for (auto* s : e.of) bad |= s->bad && s->main && s->stage >= 0;
                for (auto* s : e.of) s->bad = false;
                for (auto* s : e.of) old.push_back(s->started);
            }
            e.ex->run_once();
            sim::Quiet q;
            for (size_t i = 0; i < e.of.size(); i++) {
                int n = e.of[i]->started - old[i], want = e.of[i]->stage >= 0;
                if (n != want || e.of[i]->done != e.of[i]->started) sim::fail("oracle:executed", "after the faults have stopped system %d is executed %d times instead of %d", e.of[i]->idx, n, want);
            }
        }
    }
    {
        sim::Quiet q;
        sim::state((uint64_t)w.failures * 1000 + (uint64_t)w.created);
    }
    execs.clear();
    sched.reset();
    }
    sim::check_leaks("after everything was destroyed");
    cur = nullptr;
    sim::on_hang(nullptr, nullptr);
}

std::string show(const Case&, const Op& o) {
    static const char* n[] = { "submit", "wait", "submit many", "parallel_for", "replace the pool", "add system", "create executor", "run_once", "begin stage", "fill the queue" };
    char b[160];
    std::snprintf(b, sizeof b, "%s ref=%lld points=%lld children=%lld %s n=%lld", n[o.k], (long long)o.a[0], (long long)o.a[1], (long long)o.a[2], o.a[3] ? "main/moved" : "", (long long)o.a[4]);
    return b;
}
sim::Register r({ "C19", { { "failing-submissions", 2, SCHED | F | (1u << sim::K_THREAD), gen, run, show, "submissions, parallel_for, schedules and pools met by failing allocations and copies", sim::HANG_OK },
                           { "full-queue", 1, SCHED | F, gen_full, run, show, "parallel_for and schedules fail half way because the queue of tasks cannot grow", sim::HANG_OK },
                           { "throwing-systems", 1, SCHED | F, gen_bad, run, show, "main thread systems throw while others are running", sim::HANG_OK } },
    { "submission failed", "operation failed", "wait", "parallel_for failed", "pool creation failed", "run failed", "queue filled", "nested parallel_for failed" } });
} // namespace
