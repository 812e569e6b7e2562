// C04 the work-stealing deque is linearizable
#include <co_ecs/detail/work_stealing_queue.hpp>

#include "../sim/dsim.h"

#include <functional>
#include <memory>
#include <set>
#include <thread>

using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_WEAKCAS) | (1u << sim::K_STALL);

struct Item {
    int64_t value = 0;
    int64_t check = 0;
    int taken = 0;
};
using queue = co_ecs::detail::work_stealing_queue<Item*>;

enum { PUSH = 0, POP = 1, STEAL = 2 };
struct Event {
    int what;
    int value; // -1: nothing
    uint64_t call, ret;
};

struct Recorder {
    std::vector<std::vector<Event>> per_thread;
};

// the receiver reads and writes the element: what the pusher wrote must be visible and nobody else may have it
int receive(Item* i, std::vector<std::unique_ptr<Item>>& items) {
    {
        sim::Quiet q;
        bool known = false;
        for (auto& p : items) known |= p.get() == i;
        if (!known) sim::fail("oracle:unknown-element", "an element that was never pushed was returned");
    }
    int64_t v = i->value;
    if (i->check != v * 7 + 1) sim::fail("oracle:payload", "element %lld was received without what was written to it before the push", (long long)v);
    if (i->taken++) sim::fail("oracle:returned-twice", "element %lld was returned twice", (long long)v);
    i->check = -1;
    return (int)v;
}

struct Lin {
    const std::vector<std::vector<Event>>& h;
    std::set<std::vector<int>> seen;
    std::vector<int> pos;
    std::vector<int> dq; // remaining elements, oldest first
    explicit Lin(const std::vector<std::vector<Event>>& hist) : h(hist), pos(hist.size()) {}
    bool go() {
        bool all = true;
        uint64_t min_ret = ~0ull;
        for (size_t t = 0; t < h.size(); t++)
            if (pos[t] < (int)h[t].size()) {
                all = false;
                min_ret = std::min(min_ret, h[t][pos[t]].ret);
            }
        if (all) return true;
        if (!seen.insert(pos).second) return false;
        for (size_t t = 0; t < h.size(); t++) {
            if (pos[t] >= (int)h[t].size()) continue;
            const Event& e = h[t][pos[t]];
            if (e.call > min_ret) continue;
            bool ok = true;
            if (e.what == PUSH) dq.push_back(e.value);
            else if (e.value < 0) ok = dq.empty();
            else if (e.what == POP) {
                if ((ok = !dq.empty() && dq.back() == e.value)) dq.pop_back();
            } else if ((ok = !dq.empty() && dq.front() == e.value)) dq.erase(dq.begin());
            if (!ok) continue;
            pos[t]++;
            if (go()) return true;
            pos[t]--;
            if (e.what == PUSH) dq.pop_back();
            else if (e.value >= 0) {
                if (e.what == POP) dq.push_back(e.value);
                else dq.insert(dq.begin(), e.value);
            }
        }
        return false;
    }
};

// params: thieves, capacity, owner is a separate thread, final drain (0 owner pops, 1 main steals), linearizability checked
void gen_deque(Rng& g, Case& c) {
    int thieves = (int)g.pick(1, 1, 2, 2, 3);
    c.p = { thieves, g.chance(1, 30) ? g.pick(64, 1024, 4096) : g.pick(2, 2, 2, 4, 4, 8), g.below(2), g.below(2), 1 };
    int bias = (int)g.range(3, 8);
    int n = (int)g.range(2, g.chance(1, 3) ? 40 : 14);
    for (int i = 0; i < n; i++) {
        Op o;
        o.a[0] = 0;
        o.k = g.chance(bias, 10) ? PUSH : POP;
        o.a[1] = g.pick(0, 0, 0, 1, 3);
        c.ops.push_back(o);
    }
    for (int t = 1; t <= thieves; t++) {
        int m = (int)g.range(1, g.chance(1, 3) ? 20 : 6);
        for (int i = 0; i < m; i++) {
            Op o;
            o.a[0] = t;
            o.k = STEAL;
            o.a[1] = g.pick(0, 0, 0, 1, 4);
            c.ops.push_back(o);
        }
    }
}
void gen_long(Rng& g, Case& c) {
    int thieves = (int)g.pick(1, 2, 3, 4);
    c.p = { thieves, g.pick(2, 4, 16, 1024), g.below(2), g.below(2), 0 };
    int n = (int)g.pick(60, 200, c.p[1] == 1024 ? (g.chance(1, 4) ? 9000 : 2300) : 400);
    // owner: bursts
    while (n > 0) {
        int burst = (int)std::min<int64_t>(n, c.p[1] == 1024 && g.chance(1, 2) ? g.range(1000, n > 4000 ? 5000 : 1500) : g.range(1, 40));
        bool push = g.chance(3, 5);
        for (int i = 0; i < burst; i++) {
            Op o;
            o.k = push ? PUSH : POP;
            c.ops.push_back(o);
        }
        n -= burst;
    }
    for (int t = 1; t <= thieves; t++) {
        int m = (int)g.range(5, 60);
        for (int i = 0; i < m; i++) {
            Op o;
            o.a[0] = t;
            o.k = STEAL;
            o.a[1] = g.pick(0, 0, 2);
            c.ops.push_back(o);
        }
    }
}

void run_deque(const Case& c) {
    int thieves = (int)c.p[0];
    queue q((int64_t)c.p[1]);
    std::vector<std::unique_ptr<Item>> items;
    Recorder rec;
    std::vector<std::vector<const Op*>> prog(thieves + 1);
    {
        sim::Quiet qq;
        rec.per_thread.resize(thieves + 1);
        for (auto& o : c.ops) prog[o.a[0] % (thieves + 1)].push_back(&o);
        for (size_t i = 0; i < prog[0].size() + 1; i++) items.push_back(nullptr);
    }
    // elements are created up front (simulated heap), filled by the owner just before the push
    for (auto& p : items) p = std::make_unique<Item>();
    int next = 0;
    auto record = [&](int t, int what, int value, uint64_t call) {
        sim::Quiet qq;
        rec.per_thread[t].push_back({ what, value, call, sim::seq() });
    };
    auto owner_op = [&](const Op& o) {
        for (int i = 0; i < o.a[1]; i++) sim::point();
        if (o.k == PUSH) {
            Item* it = items[next].get();
            it->value = next;
            it->check = next * 7 + 1;
            uint64_t call = sim::seq();
            q.push(it);
            record(0, PUSH, next, call);
            next++;
        } else {
            uint64_t call = sim::seq();
            auto r = q.pop();
            record(0, POP, r ? receive(*r, items) : -1, call);
            if (!r) sim::probe(0);
        }
    };
    auto thief = [&](int t) {
        for (auto* o : prog[t]) {
            for (int i = 0; i < o->a[1]; i++) sim::point();
            uint64_t call = sim::seq();
            auto r = q.steal();
            if (r) {
                record(t, STEAL, receive(*r, items), call);
                sim::probe(1);
            } else if (prog[0].size() > 0) sim::probe(2);
        }
    };
    {
        std::vector<std::thread> ts;
        for (int t = 1; t <= thieves; t++) ts.emplace_back(thief, t);
        if (c.p[2]) {
            std::thread ow([&] {
                for (auto* o : prog[0]) owner_op(*o);
            });
            ow.join();
        } else
            for (auto* o : prog[0]) owner_op(*o);
        for (auto& t : ts) t.join();
    }
    if (q.capacity() > c.p[1]) sim::probe(3);
    size_t left = q.size();
    // nobody else is running now: the queue has to hand out everything that is left
    size_t got = 0;
    for (;; got++) {
        if (q.empty() != (left == got)) sim::fail("oracle:size", "empty() says %d with %zu elements left", (int)q.empty(), left - got);
        uint64_t call = sim::seq();
        auto r = c.p[3] ? q.steal() : q.pop();
        record(c.p[3] ? 1 : 0, c.p[3] ? STEAL : POP, r ? receive(*r, items) : -1, call);
        if (!r) break;
    }
    sim::Quiet qq;
    for (int i = 0; i < next; i++)
        if (items[i]->taken != 1) sim::fail("oracle:lost", "element %d was pushed but never returned although the deque was drained", i);
    if (got != left) sim::fail("oracle:size", "size() was %zu but %zu elements were left", left, got);
    if (c.p[4]) {
        Lin l(rec.per_thread);
        if (!l.go()) {
            std::string s;
            for (size_t t = 0; t < rec.per_thread.size(); t++)
                for (auto& e : rec.per_thread[t]) {
                    char b[96];
                    snprintf(b, sizeof b, " T%zu[%llu-%llu] %s(%d)", t, (unsigned long long)e.call, (unsigned long long)e.ret, e.what == PUSH ? "push" : e.what == POP ? "pop" : "steal",
                        e.value);
                    s += b;
                }
            sim::fail("oracle:not-linearizable", "history has no legal order of the deque:%s", s.substr(0, 1500).c_str());
        }
        sim::probe(4);
    }
    for (auto& v : rec.per_thread)
        for (auto& e : v) sim::state(((uint64_t)e.what << 32) ^ (uint64_t)(uint32_t)e.value);
}
std::string show(const Case&, const Op& o) {
    char b[80];
    snprintf(b, sizeof b, "%s %lld: %s after %lld points", o.a[0] ? "thief" : "owner", (long long)o.a[0], o.k == PUSH ? "push" : o.k == POP ? "pop" : "steal", (long long)o.a[1]);
    return b;
}

sim::Register r4({ "C04",
    { { "deque", 30, SCHED, gen_deque, run_deque, show, "owner and 1-3 thieves, small capacities, full linearizability check", 0 },
        { "deque-long", 1, SCHED, gen_long, run_deque, show, "hundreds to thousands of elements, repeated growth, conservation check", 0 } },
    { "owner pop of an empty deque", "successful steal", "failed steal", "grown beyond initial capacity", "history checked for linearizability" } });
} // namespace
