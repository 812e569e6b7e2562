// C01 tasks run exactly once, C02 wait covers the tree, C03 progress/shutdown/start failure
#include <co_ecs/thread_pool/thread_pool.hpp>

#include "../sim/dsim.h"

#include <chrono>
#include <memory>
#include <thread>

using co_ecs::task_t;
using co_ecs::thread_pool;
using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_TIME) | (1u << sim::K_WEAKCAS)
                           | (1u << sim::K_STALL) | (1u << sim::K_WAKE);

enum Check { COUNT = 1, TREE = 2 };

// op kinds
enum { NODE = 0, WAIT = 1, SLEEP = 2, RECREATE = 3, BATCH = 4 };
// how a node is attached
enum { ROOT = 0, BODY_CHILD = 1, BODY_WAITED = 2, MAIN_CHILD = 3, BODY_ANCESTOR = 4, BODY_LATE = 5 };

struct Node {
    int mode = 0;
    Node* parent = nullptr;   // structural parent (whose body submits it)
    Node* covered = nullptr;  // task parent: waiting for it covers this node
    std::vector<Node*> body;  // children submitted by the body
    int pts = 0;
    task_t* task = nullptr;
    bool submitted = false;
    bool main_known = false;
    int started = 0;
    int done = 0;
    int64_t val = 0;
    int idx = 0;
};

struct World {
    std::vector<std::unique_ptr<Node>> nodes;
    unsigned check = 0;
};

void body(Node* n);

// allocates first so that the body can know its own task
void submit_known(Node* n, task_t* parent) {
    n->task = co_ecs::task_pool::allocate([n] { body(n); }, parent);
    n->submitted = true;
    thread_pool::current_worker().submit(n->task);
}

void body(Node* n) {
    n->started++;
    for (int i = 0; i < n->pts; i++) sim::point();
    for (Node* c : n->body) {
        if (c->mode == BODY_LATE) continue;
        if (c->mode == BODY_CHILD) submit_known(c, n->task);
        else if (c->mode == BODY_ANCESTOR) submit_known(c, n->covered ? n->covered->task : n->task);
        else {
            submit_known(c, nullptr);
            thread_pool::get().wait(c->task);
        }
    }
    n->val = 1000 + n->idx;
    for (Node* c : n->body)
        if (c->mode == BODY_LATE) submit_known(c, n->task);
    for (int i = 0; i < n->pts / 2; i++) sim::point();
    n->done++;
}

bool covered_by(const Node* n, const Node* root) {
    for (const Node* x = n; x;) {
        if (x == root) return true;
        if (x->mode == BODY_WAITED) x = x->parent; // the parent's body waits for it
        else x = x->covered;
    }
    return false;
}

// after wait(root): every covered submitted task must have finished, visibly
void check_tree(World& w, Node* root) {
    for (auto& p : w.nodes) {
        Node* n = p.get();
        bool cov;
        {
            sim::Quiet q;
            // a node whose structural ancestors never ran is not submitted; covered nodes must have been
            cov = covered_by(n, root) && !(n->mode == MAIN_CHILD && !n->submitted);
            // body nodes of a MAIN_CHILD that is not submitted yet
            for (Node* x = n; cov && x; x = x->mode == BODY_WAITED || x->mode == BODY_CHILD || x->mode == BODY_ANCESTOR || x->mode == BODY_LATE ? x->parent : nullptr)
                if (x->mode == MAIN_CHILD && !x->submitted) cov = false;
        }
        if (!cov) continue;
        if (w.check & TREE) {
            int d = n->done; // instrumented reads: also checks happens-before
            int64_t v = n->val;
            if (d < 1 || v != 1000 + n->idx)
                sim::fail("oracle:wait-incomplete", "wait for task %d returned but task %d of its tree has not finished (done=%d)", root->idx, n->idx, d);
        }
    }
}
void check_counts(World& w, bool all) {
    sim::Quiet q;
    for (auto& p : w.nodes) {
        if (p->started > 1) sim::fail("oracle:executed-twice", "task %d was executed %d times", p->idx, p->started);
        if (all && p->submitted && p->started == 0) sim::fail("oracle:task-lost", "task %d was submitted and waited for but never executed", p->idx);
        if (p->started && !p->submitted) sim::fail("oracle:spurious-task", "task %d was executed without being submitted", p->idx);
        if (all && p->started && p->done != p->started) sim::fail("oracle:task-lost", "task %d was started but did not finish", p->idx);
    }
}
World* hang_world;
void tree_hang(void*) {
    World& w = *hang_world;
    if (!(w.check & COUNT)) return;
    for (auto& p : w.nodes) {
        if (p->started > 1) sim::fail("oracle:executed-twice", "task %d was executed %d times", p->idx, p->started);
        if (p->submitted && !p->started) sim::fail("oracle:task-lost", "task %d was submitted but is never executed (nothing makes progress any more)", p->idx);
    }
}

void gen_tree_ops(Rng& g, Case& c, int nodes, bool waits) {
    std::vector<int> main_known; // node indices submitted by main
    for (int i = 0; i < nodes; i++) {
        Op o;
        o.k = NODE;
        if (i == 0 || g.chance(1, 5)) o.a[1] = ROOT;
        else o.a[1] = g.pick(BODY_CHILD, BODY_CHILD, BODY_WAITED, MAIN_CHILD, MAIN_CHILD, BODY_ANCESTOR, BODY_LATE);
        o.a[0] = g.chance(1, 2) && i ? i - 1 : g.below(i ? i : 1);
        o.a[2] = g.pick(0, 0, 1, 3, 8);
        c.ops.push_back(o);
        if (waits && g.chance(1, 8)) {
            Op w;
            w.k = g.chance(3, 4) ? WAIT : SLEEP;
            w.a[0] = g.below(i + 1);
            w.a[1] = g.pick(1, 6, 20);
            c.ops.push_back(w);
        }
    }
}
void gen_tree(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 2, 3, 3, 4, 5), g.below(2) };
    gen_tree_ops(g, c, (int)g.range(1, g.chance(1, 4) ? 24 : 9), true);
}

Node* add_node(World& w, const Op& o) {
    w.nodes.push_back(std::make_unique<Node>());
    Node* n = w.nodes.back().get();
    n->idx = (int)w.nodes.size() - 1;
    n->mode = (int)(o.a[1] % 6);
    n->pts = (int)o.a[2];
    if (n->idx == 0) n->mode = ROOT;
    if (n->mode != ROOT) {
        Node* p = w.nodes[o.a[0] % n->idx].get();
        if (n->mode == MAIN_CHILD) {
            // needs a parent that main submitted itself
            while (p->mode != ROOT && p->mode != MAIN_CHILD) p = p->parent;
            n->parent = p;
            n->covered = p;
        } else {
            n->parent = p;
            if (n->mode == BODY_CHILD || n->mode == BODY_LATE) n->covered = p;
            else if (n->mode == BODY_ANCESTOR) n->covered = p->covered ? p->covered : p;
            p->body.push_back(n);
        }
    }
    return n;
}

void run_tree_impl(const Case& c, unsigned check) {
    World w;
    w.check = check;
    hang_world = &w;
    sim::on_hang(tree_hang, nullptr);
    std::vector<const Op*> steps;
    std::vector<Node*> order;
    {
        sim::Quiet q;
        // build the whole structure first (bodies need their child lists before they run)
        for (auto& o : c.ops)
            if (o.k == NODE) add_node(w, o);
    }
    {
        thread_pool pool(c.p[0]);
        int ni = 0;
        for (auto& o : c.ops) {
            if (o.k == NODE) {
                Node* n = w.nodes[ni++].get();
                if (n->mode == ROOT || n->mode == MAIN_CHILD) {
                    task_t* parent = n->mode == MAIN_CHILD ? n->parent->task : nullptr;
                    n->main_known = true;
                    if (n->pts & 1) submit_known(n, parent);
                    else if (n->body.empty()) {
                        n->submitted = true;
                        n->task = pool.submit([n] { body(n); }, parent);
                    } else submit_known(n, parent);
                }
            } else if (o.k == WAIT && ni > 0) {
                Node* n = w.nodes[o.a[0] % ni].get();
                if (n->main_known) {
                    pool.wait(n->task);
                    sim::probe(0);
                    check_tree(w, n);
                }
            } else if (o.k == SLEEP) {
                std::this_thread::sleep_for(std::chrono::milliseconds(o.a[1]));
                sim::probe(1);
            }
        }
        // wait for every root
        for (auto& n : w.nodes)
            if (n->mode == ROOT) {
                if (c.p[1]) sim::settle();
                pool.wait(n->task);
                check_tree(w, n.get());
            }
        if (check & COUNT) {
            // whether a wait covers the whole tree is C02's business: wait for every task before counting
            for (bool again = true; again;) {
                again = false;
                for (auto& n : w.nodes)
                    if (n->submitted && !n->done) {
                        pool.wait(n->task);
                        if (!n->done) sim::point();
                        again |= !n->started;
                    }
                check_counts(w, false);
            }
            check_counts(w, false);
        }
    }
    if (check & COUNT) check_counts(w, true);
    {
        sim::Quiet q;
        sim::state(w.nodes.size());
    }
    hang_world = nullptr;
    sim::on_hang(nullptr, nullptr);
}
void run_count(const Case& c) { run_tree_impl(c, COUNT); }
void run_wait(const Case& c) { run_tree_impl(c, TREE); }

std::string show_tree(const Case&, const Op& o) {
    static const char* m[] = { "root", "child submitted by parent's body", "submitted and waited by parent's body", "child attached by main thread",
        "child of grandparent submitted by body", "child submitted at end of parent's body" };
    char b[160];
    switch (o.k) {
    case NODE: snprintf(b, sizeof b, "task: %s, parent ref %lld, %lld points", m[o.a[1] % 6], (long long)o.a[0], (long long)o.a[2]); break;
    case WAIT: snprintf(b, sizeof b, "main waits for task ref %lld", (long long)o.a[0]); break;
    case SLEEP: snprintf(b, sizeof b, "main sleeps %lld ms", (long long)o.a[1]); break;
    case RECREATE: snprintf(b, sizeof b, "pool of %lld workers (start faults %s)", (long long)o.a[0], o.a[1] ? "on" : "off"); break;
    default: snprintf(b, sizeof b, "submit %lld tasks, mode %lld, then %s", (long long)o.a[0], (long long)o.a[1], o.a[2] ? "wait" : "wait later"); break;
    }
    return b;
}

// ---- many tasks in flight -----------------------------------------------------------------------------------
// A long task keeps running (helped by a worker) while thousands of further tasks pass through the same thread's
// task storage; or thousands are submitted before anyone waits.
void gen_flood(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3), g.below(3), g.pick(4097, 4200, 5000), g.below(2) };
}
void run_flood(const Case& c) {
    struct Slot { int n = 0; };
    int total = (int)c.p[2];
    std::vector<Slot> ran(total);
    int head = 0;
    struct Ctx { std::vector<Slot>* ran; int* head; } ctx{ &ran, &head };
    auto verify = [](void* a) {
        auto* x = (Ctx*)a;
        for (size_t i = 0; i < x->ran->size(); i++)
            if ((*x->ran)[i].n > 1) sim::fail("oracle:executed-twice", "task %zu of many was executed %d times", i, (*x->ran)[i].n);
        if (*x->head > 1) sim::fail("oracle:executed-twice", "the first of many tasks was executed %d times", *x->head);
    };
    sim::on_hang(verify, &ctx);
    {
        thread_pool pool(c.p[0]);
        std::atomic<bool> go{ false };
        task_t* long_task = nullptr;
        if (c.p[1] == 0) {
            // everything is submitted first, then waited for
            long_task = pool.submit([&] { head++; });
            for (int i = 0; i < total; i++) pool.submit([&ran, i] { sim::Quiet q; ran[i].n++; }, long_task);
            pool.wait(long_task);
        } else {
            // a parent with unfinished children stays in flight while others come and go
            long_task = pool.submit([&] { head++; });
            task_t* straggler = pool.submit([&] { while (!go.load() && thread_pool::current_worker().id() != 0) std::this_thread::yield(); }, long_task);
            (void)straggler;
            for (int i = 0; i < total; i++) {
                task_t* t = pool.submit([&ran, i] { sim::Quiet q; ran[i].n++; }, c.p[3] ? long_task : nullptr);
                if (!c.p[3]) pool.wait(t);
            }
            go.store(true);
            pool.wait(long_task);
        }
        {
            sim::Quiet q;
            sim::probe(2);
            for (int i = 0; i < total; i++)
                if (ran[i].n != 1) sim::fail(ran[i].n ? "oracle:executed-twice" : "oracle:task-lost", "task %d of %d was executed %d times", i, total, ran[i].n);
            if (head != 1) sim::fail(head ? "oracle:executed-twice" : "oracle:task-lost", "the first of %d tasks was executed %d times", total, head);
        }
    }
    sim::on_hang(nullptr, nullptr);
}

// ---- captures released late ---------------------------------------------------------------------------------
// A worker that is slow in releasing what a finished task captured must not harm the tasks that follow.
struct LateShared {
    task_t* task = nullptr;
    std::atomic<bool> started{ false }, go{ false };
    int alive = 0, bad = 0, pts = 0;
};
struct Late {
    LateShared* sh;
    uint64_t magic = 0x600dfeed;
    explicit Late(LateShared* x) : sh(x) { count(1); }
    Late(const Late& o) : sh(o.sh), magic(o.magic) { count(1); }
    void count(int d) {
        sim::Quiet q;
        sh->alive += d;
    }
    ~Late() {
        {
            sim::Quiet q;
            if (magic != 0x600dfeed) sim::fail("oracle:task-lost", "what a task captured was destroyed twice");
        }
        // the task has been reported as completed: the submitter is free to go on, for as long as it takes
        if (sim::tid() != 0 && sh->task && sh->task->is_completed()) {
            sim::probe(3);
            while (!sh->go.load()) std::this_thread::sleep_for(std::chrono::milliseconds(5));
        } else
            for (int i = 0; i < sh->pts; i++) sim::point();
        count(-1);
        magic = 0xdead;
    }
};
void gen_late(Rng& g, Case& c) {
    c.p = { g.pick(2, 2, 3), g.range(1, 3), g.below(4096), g.below(2), g.pick(0, 0, 3), g.pick(1, 8, 64) };
}
void run_late(const Case& c) {
    LateShared sh;
    sh.pts = (int)c.p[4];
    std::vector<int> ran((size_t)(4096 * (c.p[1] + 1) + 4200), 0);
    size_t n = 0;
    {
        thread_pool pool((size_t)c.p[0]);
        auto batch = [&](size_t k) {
            task_t* parent = nullptr;
            for (size_t i = 0; i < k && n < ran.size(); i++) {
                task_t* t = pool.submit([&ran, x = n] { sim::Quiet q; ran[x]++; }, parent);
                n++;
                if (!parent) parent = t;
            }
            if (parent) pool.wait(parent);
        };
        while (n < (size_t)c.p[2]) batch((size_t)c.p[5]);
        {
            Late cap(&sh);
            auto body = [&sh, cap] { sh.started.store(true); };
            if (c.p[3]) sh.task = pool.submit(body);
            else {
                sh.task = co_ecs::task_pool::allocate(body);
                thread_pool::current_worker().submit(sh.task);
            }
        }
        for (int i = 0; i < 40 && !sh.started.load(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        pool.wait(sh.task);
        size_t until = n + 4096 * (size_t)c.p[1];
        while (n < until) batch((size_t)c.p[5]);
        sh.go.store(true);
        while (n < ran.size()) batch((size_t)c.p[5]);
        sim::Quiet q;
        for (size_t i = 0; i < n; i++)
            if (ran[i] != 1) sim::fail(ran[i] ? "oracle:executed-twice" : "oracle:task-lost", "task %zu of %zu was executed %d times", i, n, ran[i]);
        if (sh.alive < 0) sim::fail("oracle:task-lost", "what a task captured was destroyed more often than it was created");
    }
}

// ---- many unfinished children -------------------------------------------------------------------------------
// p: workers, children, who submits them (0 main, 1 the parent's body), depth, tasks hold back until all are submitted
void gen_wide(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 3), g.chance(1, 25) ? g.range(65534, 65600) : g.chance(1, 2) ? g.range(250, 270) : g.range(100, 1200), g.below(2), g.below(3), g.below(3) };
}
void run_wide(const Case& c) {
    size_t n = (size_t)c.p[1];
    std::vector<int> done(n + 8, 0);
    std::atomic<bool> go{ c.p[4] == 0 };
    thread_pool pool((size_t)c.p[0]);
    struct Sub {
        std::vector<int>& done;
        std::atomic<bool>& go;
        int64_t hold;
        size_t n;
        void all(task_t* parent) {
            for (size_t i = 0; i < n; i++) {
                auto f = [this, i] {
                    // a worker that is not the submitter waits until everything is submitted
                    if (hold == 2 && thread_pool::current_worker().id() != 0)
                        while (!go.load()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
                    done[i] = (int)i + 1;
                };
                task_t* t = thread_pool::get().submit(f, parent);
                (void)t;
            }
            go.store(true);
        }
    } sub{ done, go, c.p[4], n };
    // the children hang below a chain of up to two more tasks
    task_t* root = pool.submit([&done, n] { done[n] = 1; });
    task_t* at = root;
    for (int64_t d = 0; d < c.p[3]; d++) at = pool.submit([&done, x = n + 1 + (size_t)d] { done[x] = 1; }, at);
    if (c.p[2] == 0) sub.all(at);
    else {
        task_t* self = co_ecs::task_pool::allocate([] {}, at);
        thread_pool::current_worker().submit(self);
        at = co_ecs::task_pool::allocate([&sub, root] { sub.all(root); }, root);
        thread_pool::current_worker().submit(at);
    }
    pool.wait(root);
    sim::probe(2);
    for (size_t i = 0; i < n; i++)
        if (done[i] != (int)i + 1) sim::fail("oracle:wait-incomplete", "wait for a task with %zu children returned but child %zu has not finished", n, i);
    for (size_t i = n; i <= n + (size_t)c.p[3]; i++)
        if (done[i] != 1) sim::fail("oracle:wait-incomplete", "wait for a task returned but a task of its tree has not finished");
}

// ---- C03 ----------------------------------------------------------------------------------------------------
void gen_life(Rng& g, Case& c) {
    c.p = { g.below(2) };
    int n = (int)g.range(1, 5);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = RECREATE;
        o.a[0] = g.pick(1, 2, 2, 3, 4, 5);
        o.a[1] = g.chance(1, 2);
        c.ops.push_back(o);
        int m = (int)g.range(0, 4);
        for (int j = 0; j < m; j++) {
            Op b;
            b.k = g.chance(1, 4) ? SLEEP : BATCH;
            if (b.k == SLEEP) b.a[1] = g.pick(1, 6, 50);
            else {
                b.a[0] = g.range(1, 6);
                b.a[1] = g.below(3);
                b.a[2] = g.below(2);
            }
            c.ops.push_back(b);
        }
    }
}
void run_life(const Case& c) {
    std::unique_ptr<thread_pool> pool;
    std::vector<task_t*> pending;
    auto finish = [&] {
        for (auto* t : pending) {
            if (c.p[0]) sim::settle();
            pool->wait(t);
        }
        pending.clear();
        if (pool) {
            if (c.p[0]) sim::settle();
            pool.reset();
            sim::probe(5);
            if (int n = sim::threads_alive(); n != 1)
                sim::fail("oracle:thread-left", "pool destroyed but %d of its threads still exist", n - 1);
        }
    };
    std::atomic<int> counter{ 0 };
    for (auto& o : c.ops) {
        if (o.k == RECREATE) {
            finish();
            for (int attempt = 0; attempt < 6 && !pool; attempt++) {
                uint64_t before = sim::injected(sim::K_THREAD);
                try {
                    sim::Allow a(o.a[1] && attempt < 4 ? 1u << sim::K_THREAD : 0);
                    pool = std::make_unique<thread_pool>(o.a[0]);
                } catch (const std::exception& e) {
                    sim::Quiet q;
                    sim::probe(6);
                    if (sim::injected(sim::K_THREAD) == before)
                        sim::fail("oracle:create-failed", "creating a pool failed although every thread could be started: %s", e.what());
                    if (int n = sim::threads_alive(); n != 1)
                        sim::fail("oracle:thread-left", "pool creation failed but %d of its threads still exist", n - 1);
                    continue;
                }
                if (sim::injected(sim::K_THREAD) != before) sim::fail("oracle:start-failure-hidden", "a worker could not be started but pool creation reported success");
                if (&thread_pool::get() != pool.get()) sim::fail("oracle:not-registered", "the created pool is not the one the library uses");
                if ((int64_t)pool->num_workers() != o.a[0]) sim::fail("oracle:workers", "pool has %zu workers instead of %lld", pool->num_workers(), (long long)o.a[0]);
            }
        } else if (o.k == SLEEP) {
            std::this_thread::sleep_for(std::chrono::milliseconds(o.a[1]));
            sim::probe(7);
        } else if (o.k == BATCH && pool) {
            task_t* parent = nullptr;
            for (int i = 0; i < o.a[0]; i++) {
                task_t* t = pool->submit(
                    [&counter, mode = o.a[1]] {
                        counter.fetch_add(1);
                        sim::point();
                        if (mode == 1) {
                            auto* t = thread_pool::get().submit([&counter] { counter.fetch_add(1); sim::point(); });
                            thread_pool::get().wait(t);
                        }
                    },
                    o.a[1] == 2 ? nullptr : parent);
                if (!parent) parent = t;
                if (o.a[1] == 2) pending.push_back(t);
            }
            if (o.a[1] != 2) pending.push_back(parent);
            if (o.a[2]) {
                for (auto* t : pending) {
                    if (c.p[0]) sim::settle();
                    pool->wait(t);
                }
                pending.clear();
                sim::probe(4);
            }
        }
    }
    finish();
}

const char* none = "";
sim::Register r1({ "C01",
    { { "task-tree", 30, SCHED, gen_tree, run_count, show_tree, "random task forests, every way of attaching", sim::NO_RACE | sim::HANG_OK },
        { "flood", 1, SCHED, gen_flood, run_flood, nullptr, "thousands of tasks through one thread's task storage", sim::NO_RACE | sim::HANG_OK },
        { "late-release", 1, SCHED, gen_late, run_late, nullptr, "captures whose release takes long while the task storage wraps around", sim::NO_RACE | sim::HANG_OK } },
    { "explicit wait in the middle", "idle period", "flood completed" } });
sim::Register r2({ "C02",
    { { "wait-tree", 40, SCHED, gen_tree, run_wait, show_tree, "random task forests, waits checked against the tree", sim::HANG_OK },
        { "wide", 1, SCHED, gen_wide, run_wide, nullptr, "hundreds to tens of thousands of unfinished children below one task", sim::HANG_OK } },
    { "explicit wait in the middle", "idle period", "wide tree waited for" } });
sim::Register r3({ "C03",
    { { "pool-life", 1, SCHED | (1u << sim::K_THREAD), gen_life, run_life, show_tree, "create/use/sleep/destroy cycles with thread start failures", sim::NO_RACE } },
    { none, none, none, none, "batch waited", "pool destroyed", "start failure reported", "idle period" } });
} // namespace
