// C05 parallel_for, C06 parallel iteration of views
#include "comps.h"

#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <thread>

using namespace hc;
using co_ecs::entity;
using co_ecs::task_t;
using co_ecs::thread_pool;
using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

constexpr unsigned SCHED = (1u << sim::K_SWITCH) | (1u << sim::K_STALE) | (1u << sim::K_SPUR) | (1u << sim::K_TIME) | (1u << sim::K_WEAKCAS)
                           | (1u << sim::K_STALL) | (1u << sim::K_WAKE);

// ---- C05 ---------------------------------------------------------------------------------------------------------
struct Cell {
    int n = 0;
    int64_t val = -1;
    int idx = 0;
};
struct Call {
    int type, size, pts, depth;
    bool no_wrap = false; // parallel_for left early is told apart from an element that was forgotten
};
const char* const range_name[] = { "vector", "list", "deque", "indices", "span", "part of a vector", "filter view", "transform view", "const vector", "set", "temporary vector", "reversed vector", "map" };
constexpr int N_RANGES = 13;

void do_for(Call c, int64_t salt);
void touch(Cell& x, const Call& c, int64_t salt) {
    x.n++;
    for (int i = 0; i < c.pts; i++) sim::point();
    if (c.depth > 0) {
        Call in{ (c.type + 1 + x.idx) % N_RANGES, (c.size + x.idx * 3) % 9 + (c.depth > 1 ? 0 : x.idx % 2), c.pts / 2, c.depth - 1 };
        do_for(in, salt * 7 + x.idx);
    }
    x.val = salt * 1000 + x.idx;
}
template<typename C>
void check_cells(C& cells, const std::function<bool(int)>& in_range, const Call& c, int64_t salt) {
    for (auto& x : cells) {
        int n = x.n; // instrumented: the effects are visible to the caller
        int64_t v = x.val;
        bool want = in_range(x.idx);
        if (n > want) sim::fail(want ? "oracle:applied-twice" : "oracle:applied-outside", "parallel_for over %s of %d applied the function %d times to element %d", range_name[c.type], c.size, n, x.idx);
        if (want && (n < 1 || v != salt * 1000 + x.idx))
            sim::fail(n < 1 ? "oracle:not-applied" : "oracle:returned-early", "parallel_for over %s of %d returned but element %d %s", range_name[c.type], c.size, x.idx, n < 1 ? "was not visited" : "is still being worked on");
    }
}
void do_for(Call c, int64_t salt) {
    int n = c.size;
    auto number = [](auto& cells) {
        sim::Quiet q;
        int i = 0;
        for (auto& x : cells) x.idx = i++;
    };
    auto all = [](int) { return true; };
    auto f = [&c, salt](Cell& x) { touch(x, c, salt); };
    auto fi = [&c, salt](std::vector<Cell>& cells) {
        return [&c, salt, &cells](int i) {
            if (i < 0 || i >= (int)cells.size()) sim::fail("oracle:applied-outside", "parallel_for over %s of %d applied the function to %d", range_name[c.type], c.size, i);
            touch(cells[(size_t)i], c, salt);
        };
    };
    switch (c.type) {
    case 1: {
        std::list<Cell> x((size_t)n);
        number(x);
        co_ecs::parallel_for(x, f);
        check_cells(x, all, c, salt);
        break;
    }
    case 2: {
        std::deque<Cell> x((size_t)n);
        number(x);
        co_ecs::parallel_for(x, f);
        check_cells(x, all, c, salt);
        break;
    }
    case 3: {
        std::vector<Cell> x((size_t)n);
        number(x);
        co_ecs::parallel_for(std::views::iota(0, n), fi(x));
        check_cells(x, all, c, salt);
        break;
    }
    case 4: {
        std::vector<Cell> x((size_t)n);
        number(x);
        co_ecs::parallel_for(std::span<Cell>(x), f);
        check_cells(x, all, c, salt);
        break;
    }
    case 5: {
        std::vector<Cell> x((size_t)n + 5);
        number(x);
        co_ecs::parallel_for(std::ranges::subrange(x.begin() + 2, x.begin() + 2 + n), f);
        check_cells(x, [n](int i) { return i >= 2 && i < n + 2; }, c, salt);
        break;
    }
    case 6: {
        std::vector<Cell> x((size_t)n * 2);
        number(x);
        auto odd = x | std::views::filter([](const Cell& e) { return e.idx % 3 != 1; });
        co_ecs::parallel_for(odd, f);
        check_cells(x, [](int i) { return i % 3 != 1; }, c, salt);
        break;
    }
    case 7: {
        std::vector<Cell> x((size_t)n * 2);
        number(x);
        co_ecs::parallel_for(std::views::iota(0, n) | std::views::transform([](int i) { return 2 * i; }), fi(x));
        check_cells(x, [](int i) { return i % 2 == 0; }, c, salt);
        break;
    }
    case 8: {
        std::vector<Cell> x((size_t)n);
        number(x);
        std::vector<int> ix((size_t)n);
        for (int i = 0; i < n; i++) ix[(size_t)i] = i;
        co_ecs::parallel_for(std::as_const(ix), fi(x));
        check_cells(x, all, c, salt);
        break;
    }
    case 9: {
        std::vector<Cell> x((size_t)n);
        number(x);
        std::set<int> ix;
        for (int i = 0; i < n; i++) ix.insert(i);
        co_ecs::parallel_for(ix, fi(x));
        check_cells(x, all, c, salt);
        break;
    }
    case 10: {
        std::vector<Cell> x((size_t)n);
        number(x);
        std::vector<int> ix((size_t)n);
        for (int i = 0; i < n; i++) ix[(size_t)i] = i;
        co_ecs::parallel_for(std::move(ix), fi(x));
        check_cells(x, all, c, salt);
        break;
    }
    case 11: {
        std::vector<Cell> x((size_t)n);
        number(x);
        co_ecs::parallel_for(x | std::views::reverse, f);
        check_cells(x, all, c, salt);
        break;
    }
    case 12: {
        std::map<int, Cell> x;
        for (int i = 0; i < n; i++) x[i].idx = i;
        std::vector<Cell> out((size_t)n);
        number(out);
        co_ecs::parallel_for(x, [&](auto& kv) {
            touch(kv.second, c, salt);
            out[(size_t)kv.first] = kv.second;
        });
        check_cells(out, all, c, salt);
        break;
    }
    default: {
        std::vector<Cell> x((size_t)n);
        number(x);
        co_ecs::parallel_for(x, f);
        check_cells(x, all, c, salt);
    }
    }
}

enum { FOR = 0, BACKGROUND, WAIT_BG, IN_TASK, MANY, DEEP };
// p: workers (0: the default pool)
void gen_for(Rng& g, Case& c) {
    c.p = { g.pick(0, 1, 2, 2, 3, 4, 5, 6), g.below(2) };
    int n = (int)g.range(1, 5);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = (int)g.pick(FOR, FOR, FOR, BACKGROUND, BACKGROUND, WAIT_BG, IN_TASK, IN_TASK, MANY);
        o.a[0] = g.chance(1, 2) ? 0 : g.below(N_RANGES);
        o.a[1] = g.chance(1, 2) ? g.below(8) : g.chance(3, 4) ? g.below(26) : g.below(60);
        o.a[2] = g.pick(0, 0, 1, 3);
        o.a[3] = g.chance(1, 2) ? 0 : g.chance(3, 4) ? 1 : 2; // nesting
        if (o.a[3] == 2) o.a[1] %= 7;
        else if (o.a[3]) o.a[1] %= 14;
        o.a[4] = g.range(1, 4);
        c.ops.push_back(o);
    }
}
// sees threads which stop making progress while elements are outstanding
void run_for(const Case& c) {
    sim::set_hw_threads(3 + (int)c.p[1] * 2);
    std::optional<thread_pool> own;
    if (c.p[0]) own.emplace((size_t)c.p[0]);
    thread_pool& pool = thread_pool::get();
    struct Bg {
        task_t* t;
    };
    std::vector<Bg> bg;
    int64_t salt = 1;
    auto wait_bg = [&] {
        for (auto& b : bg) pool.wait(b.t);
        bg.clear();
    };
    for (auto& o : c.ops) {
        Call call{ (int)(o.a[0] % N_RANGES), (int)o.a[1], (int)o.a[2], (int)o.a[3] };
        salt++;
        switch (o.k) {
        case FOR:
            do_for(call, salt);
            sim::probe(0);
            break;
        case BACKGROUND: // other work of the pool, also such that uses parallel_for itself
            for (int i = 0; i < o.a[4]; i++) {
                bool deep = i % 2;
                bg.push_back({ pool.submit([call, salt, deep] {
                    if (deep) do_for(call, salt + 50);
                    else
                        for (int k = 0; k < call.pts * 3; k++) sim::point();
                }) });
            }
            break;
        case WAIT_BG: wait_bg(); break;
        case IN_TASK: {
            auto* t = pool.submit([call, salt] { do_for(call, salt); });
            pool.wait(t);
            sim::probe(1);
            break;
        }
        default: { // several at once
            std::vector<task_t*> ts;
            for (int i = 0; i < o.a[4]; i++) {
                Call cc = call;
                cc.type = (cc.type + i) % N_RANGES;
                ts.push_back(pool.submit([cc, salt, i] { do_for(cc, salt + 100 + i); }, i % 2 && !ts.empty() ? ts[0] : nullptr));
            }
            for (size_t i = ts.size(); i-- > 0;) pool.wait(ts[i]);
            sim::probe(2);
        }
        }
    }
    wait_bg();
    sim::state((uint64_t)salt);
}
std::string show_for(const Case&, const Op& o) {
    static const char* k[] = { "parallel_for", "background tasks", "wait for the background tasks", "parallel_for in a task", "several parallel_for at once" };
    char b[160];
    std::snprintf(b, sizeof b, "%s: %s of %lld, %lld points, nested %lld deep, x%lld", k[o.k % 5], range_name[o.a[0] % N_RANGES], (long long)o.a[1], (long long)o.a[2], (long long)o.a[3], (long long)o.a[4]);
    return b;
}

// ---- C06 ---------------------------------------------------------------------------------------------------------
constexpr int64_t STEP = 1000;
struct Ent {
    entity h;
    uint32_t mask = 0;
    int64_t base = 0;       // identifies the entity in every component
    int64_t rounds[NT] = {}; // times the component was written
    bool alive = true;
    int seen = 0;
    int wrote = 0;
    const void* at[3] = {};
};
struct World6 {
    std::unique_ptr<co_ecs::registry> reg = std::make_unique<co_ecs::registry>();
    std::vector<std::unique_ptr<Ent>> ents;
    int64_t next = 1;
    uint64_t visits = 0;
};
template<typename... R>
struct View {};
template<typename F>
decltype(auto) with_view(int v, F&& f) {
    switch (v) {
    case 0: return f(View<A&>());
    case 1: return f(View<const A&>());
    case 2: return f(View<const entity&, A&>());
    case 3: return f(View<G&, const A&>());
    case 4: return f(View<const entity&>());
    case 5: return f(View<H&>());
    case 6: return f(View<const K&, const entity&>());
    case 7: return f(View<const Tg&, A&, const entity&>());
    case 8: return f(View<J&, const B&>());
    case 9: return f(View<const G&, const A&>());
    case 10: return f(View<K&>());
    default: return f(View<const H&, const entity&>());
    }
}
constexpr int N_VIEWS = 12;
const char* const view_name[] = { "A&", "const A&", "const entity&, A&", "G&, const A&", "const entity&", "H&", "const K&, const entity&", "const Tag&, A&, const entity&", "J&, const B&",
    "const G&, const A&", "K&", "const H&, const entity&" };
template<typename R>
constexpr uint32_t bit_of() {
    using C = std::remove_cvref_t<R>;
    if constexpr (std::is_same_v<C, entity>) return 0;
    else return 1u << C::id;
}
template<typename R>
constexpr bool writes() {
    return !std::is_const_v<std::remove_reference_t<R>>;
}
// the records of one iteration
struct Rec {
    Ent* e;
    int n = 0;
    int n_points = 0;
};

template<typename... R>
struct Iteration {
    World6& w;
    std::vector<Rec> recs; // by index of entity
    int pts;
    void prepare() {
        sim::Quiet q;
        for (auto& e : w.ents) recs.push_back({ e.get() });
    }
    template<typename T>
    Rec* identify(T& x) {
        using C = std::remove_cvref_t<T>;
        if constexpr (std::is_same_v<C, entity>) {
            entity h = x;
            sim::Quiet q;
            for (auto& r : recs)
                if (r.e->alive && r.e->h == h) return &r;
            sim::fail("oracle:stray", "par_each(%s) visited an entity that does not exist", name);
        } else if constexpr (C::id == Tg::id) return nullptr;
        else {
            int64_t v = x.value();
            sim::Quiet q;
            for (auto& r : recs)
                if (r.e->alive && r.e->base == v % STEP) return &r;
            sim::fail("oracle:stray", "par_each(%s) visited a component (%lld) of no entity", name, (long long)v);
        }
        return nullptr;
    }
    const char* name = "";
    void visit(R... x) {
        Rec* r = nullptr;
        auto one = [&](auto& c) {
            Rec* k = identify(c);
            if (k && r && k != r) sim::fail("oracle:mixed", "par_each(%s) mixes components of different entities", name);
            if (k) r = k;
        };
        (one(x), ...);
        constexpr uint32_t mask = (bit_of<R>() | ... | 0u);
        if ((r->e->mask & mask) != mask) sim::fail("oracle:stray", "par_each(%s) visited an entity without all the components", name);
        r->n++;
        for (int i = 0; i < pts; i++) sim::point();
        auto write = [&]<typename T>(T& c) {
            using C = std::remove_cvref_t<T>;
            if constexpr (!std::is_const_v<T> && !std::is_same_v<C, entity>) c.assign(c.value() + STEP);
        };
        (write(x), ...);
        r->n_points++;
    }
    void check() {
        constexpr uint32_t mask = (bit_of<R>() | ... | 0u);
        for (auto& r : recs) {
            int n = r.n, m = r.n_points;
            bool want = r.e->alive && (r.e->mask & mask) == mask;
            if (n > want) sim::fail("oracle:visited-twice", "par_each(%s) visited an entity %d times", name, n);
            if (want && n < 1) sim::fail("oracle:not-visited", "par_each(%s) returned without visiting a matching entity", name);
            if (want && m < 1) sim::fail("oracle:returned-early", "par_each(%s) returned while an entity is being visited", name);
        }
    }
    void update_model() {
        sim::Quiet q;
        auto one = [&]<typename T>() {
            using C = std::remove_cvref_t<T>;
            if constexpr (writes<T>() && !std::is_same_v<C, entity>) {
                for (auto& r : recs)
                    if (r.n) r.e->rounds[C::id]++;
            }
        };
        (one.template operator()<R>(), ...);
    }
};
// one parallel iteration; the function is applied with the view's arguments
template<typename... R>
void iterate(World6& w, const char* name, int pts, bool via_ref) {
    Iteration<R...> it{ w, {}, pts };
    it.name = name;
    it.prepare();
    auto f = [&it](R... x) { it.visit(x...); };
    constexpr bool is_const = (!writes<R>() && ...);
    if (via_ref) {
        // through a view made by the registry
        if constexpr (is_const) std::as_const(*w.reg).template view<R...>().par_each(f);
        else w.reg->template view<R...>().par_each(f);
    } else {
        co_ecs::view<R...> v{ *w.reg };
        if constexpr (is_const) std::as_const(v).par_each(f);
        else v.par_each(f);
    }
    it.check();
    it.update_model();
}
// the registry afterwards, read sequentially through the same view
template<typename... R>
void compare(World6& w, const char* name) {
    constexpr uint32_t mask = (bit_of<R>() | ... | 0u);
    size_t n = 0, want = 0;
    auto f = [&](R... x) {
        n++;
        auto one = [&](auto& c) {
            using C = std::remove_cvref_t<decltype(c)>;
            if constexpr (!std::is_same_v<C, entity>) {
                if (is_tag(C::id)) return;
                int64_t v = c.value();
                sim::Quiet q;
                for (auto& e : w.ents)
                    if (e->alive && e->base == v % STEP) {
                        if (v / STEP != e->rounds[C::id]) sim::fail("oracle:value", "component %s was written %lld times by par_each instead of %lld", type_label(C::id), (long long)(v / STEP), (long long)e->rounds[C::id]);
                        return;
                    }
                sim::fail("oracle:value", "component %s has an impossible value after par_each(%s)", type_label(C::id), name);
            }
        };
        (one(x), ...);
    };
    constexpr bool is_const = (!writes<R>() && ...);
    co_ecs::view<R...> v{ *w.reg };
    if constexpr (is_const) std::as_const(v).each(f);
    else v.each(f);
    for (auto& e : w.ents) want += e->alive && (e->mask & mask) == mask;
    if (n != want) sim::fail("oracle:differs", "sequential iteration of (%s) visits %zu entities instead of %zu", name, n, want);
}
template<typename... C>
void make(World6& w, int n) {
    for (int i = 0; i < n; i++) {
        int64_t b = w.next++;
        if (b >= STEP) return;
        entity h = w.reg->create<C...>(C(b)...);
        sim::Quiet q;
        w.ents.push_back(std::make_unique<Ent>());
        Ent& e = *w.ents.back();
        e.h = h;
        e.base = b;
        ((e.mask |= 1u << C::id), ...);
    }
}
enum { MAKE = 0, KILL, ITER, ITER_TASK, ITER_PAR, ITER_SYS, WORK };
void gen_iter(Rng& g, Case& c) {
    c.p = { g.pick(1, 2, 2, 3, 4, 5, 6), g.below(2) };
    int n = (int)g.range(2, 9);
    for (int i = 0; i < n; i++) {
        Op o;
        o.k = i == 0 ? MAKE : (int)g.pick(MAKE, MAKE, KILL, ITER, ITER, ITER, ITER_TASK, ITER_PAR, ITER_SYS, WORK);
        o.a[0] = o.k == MAKE ? g.below(9) : g.below(N_VIEWS);
        o.a[1] = o.k == MAKE ? (g.chance(1, 2) ? g.below(5) : g.chance(1, 2) ? g.below(20) : g.below(80)) : g.below(N_VIEWS);
        o.a[2] = g.pick(0, 0, 0, 1, 2);
        o.a[3] = g.below(100);
        o.a[4] = g.range(1, 3);
        o.a[5] = g.below(4);
        c.ops.push_back(o);
    }
    Op o;
    o.k = ITER;
    o.a[0] = g.below(N_VIEWS);
    c.ops.push_back(o);
}
void run_iter(const Case& c) {
    World6 w;
    thread_pool pool((size_t)c.p[0]);
    std::vector<task_t*> bg;
    auto iter = [&](int v, int pts, bool ref) {
        with_view(v, [&]<typename... R>(View<R...>) { iterate<R...>(w, view_name[v], pts, ref); });
    };
    auto cmp = [&](int v) {
        sim::Quiet q;
        with_view(v, [&]<typename... R>(View<R...>) { compare<R...>(w, view_name[v]); });
    };
    // views that may be iterated at the same time
    static const int sets[4][4] = { { 0, 5, 10, 8 }, { 1, 9, 6, 11 }, { 3, 5, 10, 8 }, { 4, 9, 1, 6 } };
    for (auto& o : c.ops) {
        int v = (int)(o.a[0] % N_VIEWS);
        int pts = (int)o.a[2];
        bool ref = o.a[5] & 1;
        switch (o.k) {
        case MAKE: {
            int n = (int)o.a[1];
            switch (o.a[0] % 9) {
            case 0: make<A>(w, n * 3); break;
            case 1: make<A, G>(w, n); break;
            case 2: make<A, H>(w, n); break;
            case 3: make<A, K>(w, n / 2); break;
            case 4: make<G>(w, n); break;
            case 5: make<A, Tg>(w, n * 2); break;
            case 6: make<A, B, J>(w, n); break;
            case 7: make<H>(w, n); break;
            default: make<A, D128>(w, n); break;
            }
            break;
        }
        case KILL: { // also leaves archetypes and chunks without entities behind
            for (size_t i = 0; i < w.ents.size(); i++) {
                Ent& e = *w.ents[i];
                if (!e.alive) continue;
                bool kill = o.a[5] == 0 ? i % 3 == (size_t)o.a[3] % 3 : o.a[5] == 1 ? (e.mask >> 5 & 1) != 0 : o.a[5] == 2 ? i % 7 != 0 : (e.mask >> 6 & 1) != 0;
                if (!kill) continue;
                w.reg->destroy(e.h);
                sim::Quiet q;
                e.alive = false;
            }
            break;
        }
        case ITER:
            iter(v, pts, ref);
            cmp(v);
            sim::probe(0);
            break;
        case ITER_TASK: {
            auto* t = pool.submit([&] { iter(v, pts, ref); });
            pool.wait(t);
            cmp(v);
            sim::probe(1);
            break;
        }
        case ITER_PAR: { // several at once, from tasks
            const int* set = sets[o.a[5] & 3];
            int n = (int)o.a[4] + 1;
            std::vector<task_t*> ts;
            for (int i = 0; i < n; i++) {
                int vi = set[i];
                ts.push_back(pool.submit([&iter, vi, pts, ref] { iter(vi, pts, ref); }, nullptr));
            }
            for (auto* t : ts) pool.wait(t);
            for (int i = 0; i < n; i++) cmp(set[i]);
            sim::probe(2);
            break;
        }
        case ITER_SYS: { // from systems of a schedule
            const int* set = sets[o.a[5] & 3];
            int n = (int)o.a[4] + 1;
            co_ecs::schedule s;
            auto& st = s.begin_stage();
            for (int i = 0; i < n; i++) {
                int vi = set[i];
                with_view(vi, [&]<typename... R>(View<R...>) {
                    st.add_system([&w, vi, pts](co_ecs::view<R...> view) {
                        Iteration<R...> it{ w, {}, pts };
                        it.name = view_name[vi];
                        it.prepare();
                        auto f = [&it](R... x) { it.visit(x...); };
                        view.par_each(f);
                        it.check();
                        it.update_model();
                    });
                });
            }
            auto ex = s.create_executor(*w.reg);
            for (int k = 0; k < 1 + (o.a[3] & 1); k++) {
                ex->run_once();
                for (int i = 0; i < n; i++) cmp(set[i]);
            }
            sim::probe(3);
            break;
        }
        default:
            for (int i = 0; i < o.a[4]; i++)
                bg.push_back(pool.submit([pts] {
                    for (int k = 0; k < 4 + pts * 4; k++) sim::point();
                }));
        }
    }
    for (auto* t : bg) pool.wait(t);
    for (int v = 0; v < N_VIEWS; v++) cmp(v);
    sim::Quiet q;
    sim::state(w.ents.size());
}
std::string show_iter(const Case&, const Op& o) {
    static const char* k[] = { "create entities", "destroy entities", "par_each", "par_each in a task", "several par_each from tasks", "several par_each from systems", "other tasks" };
    char b[200];
    if (o.k == MAKE || o.k == KILL) std::snprintf(b, sizeof b, "%s kind=%lld n=%lld", k[o.k], (long long)(o.k == MAKE ? o.a[0] % 9 : o.a[5]), (long long)o.a[1]);
    else std::snprintf(b, sizeof b, "%s (%s) points=%lld n=%lld", k[o.k % 7], o.k == ITER || o.k == ITER_TASK ? view_name[o.a[0] % N_VIEWS] : "", (long long)o.a[2], (long long)o.a[4]);
    return b;
}

sim::Register r5({ "C05", { { "calls", 1, SCHED, gen_for, run_for, show_for, "any range and size, nested, from tasks, next to other work", sim::HANG_OK } },
    { "called from the main thread", "called in a task", "several at once" } });
sim::Register r6({ "C06", { { "views", 1, SCHED, gen_iter, run_iter, show_iter, "par_each against the model and sequential iteration", sim::HANG_OK } },
    { "from the main thread", "in a task", "several at once from tasks", "from systems" } });
} // namespace
