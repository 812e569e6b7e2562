// C17: the hash and sparse containers behave like maps
#include "comps.h"

#include <co_ecs/detail/hash_map.hpp>
#include <co_ecs/detail/sparse_map.hpp>

#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace hc;
using sim::Case;
using sim::Op;
using sim::Rng;

namespace {

// ---- keys --------------------------------------------------------------------------------------------------
int hash_mode = 0; // 0 spread, 1 few low bits, 2 constant, 3 equal low bits, 4 identity
size_t hash_of(int64_t k) {
    switch (hash_mode) {
    case 0: return (size_t)k * 0x9e3779b97f4a7c15ull >> 7;
    case 1: return (size_t)k % 3;
    case 2: return 11;
    case 3: return (size_t)k << 9;
    default: return (size_t)k;
    }
}
// a key with a life and memory of its own, copying it may fail
using Obj = Comp<16, 8, 8, ALL>;
struct Key : Obj {
    explicit Key(int64_t x = 0) : Obj(x) {}
    bool operator==(const Key& o) const { return value() == o.value(); }
};
int64_t num(const Key& k) { return k.value(); }
template<std::integral T>
int64_t num(T k) { return (int64_t)k; }
template<typename K>
struct Hash {
    size_t operator()(const K& k) const { return hash_of(num(k)); }
};
template<typename V>
int64_t val(const V& v) { return v.value(); }

// ---- the containers, seen alike ----------------------------------------------------------------------------------
template<typename K, typename V>
struct HashMap {
    using M = co_ecs::detail::hash_map<K, V, Hash<K>>;
    using value_type = std::pair<K, V>;
    static constexpr bool hash = true, set = false, copy = V::copyable;
    static constexpr int64_t max_key = 400;
};
template<typename K>
struct HashSet {
    using M = co_ecs::detail::hash_table<K, K, false, Hash<K>, std::equal_to<K>, std::allocator<K>>;
    static constexpr bool hash = true, set = true, copy = true;
    static constexpr int64_t max_key = 400;
};
template<typename K, typename V>
struct SparseMap {
    using M = co_ecs::detail::sparse_map<K, V>;
    using value_type = std::pair<K, V>;
    static constexpr bool hash = false, set = false, copy = V::copyable;
    static constexpr int64_t max_key = sizeof(K) == 1 ? 256 : 400;
};

enum { INSERT = 0, EMPLACE, ASSIGN, INDEX, ERASE, ERASE_AT, FIND, CLEAR, RESERVE, COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SWAP, RANGE_CTOR, ALIAS,
    MASS_INSERT, MASS_ERASE, WRITE, CHECK, ERASE_WHILE, N_OPS };
const char* const op_name[] = { "insert", "emplace", "insert_or_assign", "operator[]", "erase(key)", "erase(iterator)", "find", "clear", "reserve", "copy construction", "copy assignment",
    "move construction", "move assignment", "swap", "construction from a range", "insert of an own element", "insert many", "erase many", "write through iterator", "check", "erase while iterating" };

constexpr unsigned FAULTS = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);

template<typename T>
struct Run {
    using M = typename T::M;
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    bool faults;
    std::unique_ptr<M> c[2];
    std::map<int64_t, int64_t> ref[2];
    static constexpr bool tracked_key = std::is_class_v<K>;

    static int64_t key_of(const typename M::value_type& e) {
        if constexpr (T::set) return num(e);
        else return num(e.first);
    }
    static int64_t val_of(const typename M::value_type& e) {
        if constexpr (T::set) return num(e);
        else return val(e.second);
    }
    template<typename F>
    bool attempt(const char* what, F&& f) {
        uint64_t before = sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW);
        bool ok = true;
        try {
            std::optional<sim::Allow> al;
            if (faults) al.emplace(FAULTS);
            f();
        } catch (const std::exception& e) {
            ok = false;
            if (sim::injected(sim::K_ALLOC) + sim::injected(sim::K_THROW) == before) sim::fail("oracle:failed", "%s failed without a reason: %s", what, e.what());
        }
        if (!ok) sim::probe(0);
        return ok;
    }
    // what the container holds by iteration; nullopt-like failure -> violation
    std::map<int64_t, int64_t> read(const M& m, const char* where) {
        std::map<int64_t, int64_t> r;
        size_t n = 0;
        for (const auto& e : m) {
            if (++n > m.size() + 4) break;
            if (!r.emplace(key_of(e), val_of(e)).second) sim::fail("oracle:duplicate", "iteration gives key %lld twice (after %s)", (long long)key_of(e), where);
        }
        if (n != m.size()) sim::fail("oracle:size", "iteration gives %zu elements, size() is %zu (after %s)", n, m.size(), where);
        if (m.empty() != (n == 0)) sim::fail("oracle:size", "empty() is wrong (after %s)", where);
        return r;
    }
    void lookups(M& m, const std::map<int64_t, int64_t>& r, const char* where) {
        const M& cm = m;
        for (int64_t k = 0; k < T::max_key; k += (k < 12 || r.count(k + 1) ? 1 : (k & 1) + 3 + (r.size() < 10) * 8)) {
            auto it = r.find(k);
            bool want = it != r.end();
            K key = make_key(k);
            if (cm.contains(key) != want) sim::fail("oracle:lookup", "contains(%lld) is %d (after %s)", (long long)k, !want, where);
            if ((m.find(key) != m.end()) != want || (cm.find(key) != cm.end()) != want) sim::fail("oracle:lookup", "find(%lld) %s (after %s)", (long long)k, want ? "misses an element" : "finds nothing that was inserted", where);
            if (want && (val_of(*m.find(key)) != it->second || key_of(*cm.find(key)) != k)) sim::fail("oracle:value", "find(%lld) gives a wrong element (after %s)", (long long)k, where);
            if constexpr (!T::set) {
                bool threw = false;
                int64_t v = 0;
                try {
                    v = (k & 1) ? val(m.at(key)) : val(cm.at(key));
                } catch (const std::out_of_range&) {
                    threw = true;
                }
                if (threw == want) sim::fail("oracle:lookup", "at(%lld) %s (after %s)", (long long)k, want ? "throws" : "does not throw", where);
                if (want && v != it->second) sim::fail("oracle:value", "at(%lld) gives %lld instead of %lld (after %s)", (long long)k, (long long)v, (long long)it->second, where);
            }
            if constexpr (T::hash)
                if (cm.count(key) != (size_t)want) sim::fail("oracle:lookup", "count(%lld) is wrong (after %s)", (long long)k, where);
        }
    }
    static K make_key(int64_t k) { return K(k); }
    void check(int i, const char* where) {
        sim::Quiet q;
        auto r = read(*c[i], where);
        if (r != ref[i]) {
            for (auto& [k, v] : ref[i])
                if (!r.count(k)) sim::fail("oracle:lost", "key %lld is not in the container (after %s)", (long long)k, where);
                else if (r[k] != v) sim::fail("oracle:value", "key %lld has value %lld instead of %lld (after %s)", (long long)k, (long long)r[k], (long long)v, where);
            for (auto& [k, v] : r)
                if (!ref[i].count(k)) sim::fail("oracle:stray", "key %lld is in the container (after %s)", (long long)k, where);
        }
        lookups(*c[i], ref[i], where);
    }
    // after a failure of an operation on key k: it may be there or not, everything else is unchanged
    void failed_at(int i, int64_t k, const char* where) {
        {
            sim::Quiet q;
            auto r = read(*c[i], where);
            ref[i].erase(k);
            if (auto it = r.find(k); it != r.end()) ref[i][k] = it->second;
        }
        check(i, where);
    }
    // after a failure of an operation on all elements: valid, nothing that was in neither operand
    void failed_all(int i, const std::map<int64_t, int64_t>& other, const char* where) {
        {
            sim::Quiet q;
            auto r = read(*c[i], where);
            for (auto& [k, v] : r) {
                auto a = ref[i].find(k), b = other.find(k);
                if (!(a != ref[i].end() && a->second == v) && !(b != other.end() && b->second == v)) sim::fail("oracle:stray", "key %lld has a value it never had (after %s)", (long long)k, where);
            }
            ref[i] = r;
        }
        check(i, where);
    }
    void put(int i, int64_t k, int64_t v) {
        sim::Quiet q;
        ref[i].emplace(k, T::set ? k : v);
    }
    void set(int i, int64_t k, int64_t v) {
        sim::Quiet q;
        ref[i][k] = T::set ? k : v;
    }
    void returned(int i, const typename M::value_type& e, bool inserted, int64_t k, bool had, const char* what) {
        sim::Quiet q;
        if (inserted == had) sim::fail("oracle:lookup", "%s of key %lld says %s", what, (long long)k, inserted ? "inserted although it was there" : "not inserted although it was missing");
        if (key_of(e) != k) sim::fail("oracle:lookup", "%s of key %lld returned the position of key %lld", what, (long long)k, (long long)key_of(e));
    }

    void step(const Op& o) {
        int i = (int)(o.a[0] & 1);
        M& m = *c[i];
        int64_t k = o.a[1] % T::max_key, v = o.a[2] % 1000;
        bool had;
        {
            sim::Quiet q;
            had = ref[i].count(k);
        }
        const char* w = op_name[o.k];
        switch (o.k) {
        case INSERT:
        case EMPLACE: {
            bool ok;
            if constexpr (T::set) {
                K e = make_key(k);
                ok = attempt(w, [&] {
                    auto [it, ins] = o.k == INSERT ? m.insert(e) : m.emplace(std::move(e));
                    returned(i, *it, ins, k, had, w);
                });
            } else if (T::copy && o.k == INSERT) {
                if constexpr (T::copy) {
                    typename T::value_type e(make_key(k), V(v));
                    ok = attempt(w, [&] {
                        auto [it, ins] = m.insert(e);
                        returned(i, *it, ins, k, had, w);
                    });
                } else ok = false;
            } else {
                V e(v);
                K key = make_key(k);
                ok = attempt(w, [&] {
                    auto [it, ins] = m.emplace(std::move(key), std::move(e));
                    returned(i, *it, ins, k, had, w);
                });
            }
            if (ok) put(i, k, v);
            else failed_at(i, k, w);
            break;
        }
        case ASSIGN:
            if constexpr (T::hash && (T::copy || T::set)) {
                bool ok;
                if constexpr (T::set) {
                    K e = make_key(k);
                    ok = attempt(w, [&] {
                        auto [it, ins] = m.insert_or_assign(e);
                        returned(i, *it, ins, k, had, w);
                    });
                } else {
                    typename T::value_type e(make_key(k), V(v));
                    ok = attempt(w, [&] {
                        auto [it, ins] = m.insert_or_assign(e);
                        returned(i, *it, ins, k, had, w);
                    });
                }
                if (ok) set(i, k, v);
                else failed_at(i, k, w);
                break;
            }
            [[fallthrough]];
        case INDEX:
            if constexpr (!T::set) {
                K key = make_key(k);
                V e(v);
                bool give = o.a[3] & 1;
                int64_t got = -1;
                bool ok = attempt(w, [&] {
                    V& r = m[key];
                    if (give) r = std::move(e);
                    else got = val(r);
                });
                if (!ok) {
                    failed_at(i, k, w);
                    break;
                }
                if (give) set(i, k, v);
                else {
                    put(i, k, 0);
                    sim::Quiet q;
                    if (ref[i][k] != got) sim::fail("oracle:value", "operator[](%lld) gives %lld instead of %lld", (long long)k, (long long)got, (long long)ref[i][k]);
                }
            }
            break;
        case ERASE: {
            K key = make_key(k);
            if (attempt(w, [&] { m.erase(key); })) {
                sim::Quiet q;
                ref[i].erase(k);
            } else failed_at(i, k, w);
            break;
        }
        case ERASE_AT: {
            K key = make_key(k);
            auto it = m.find(key);
            if (it == m.end()) break;
            bool ok;
            if constexpr (T::hash) ok = attempt(w, [&] { m.erase(it); });
            else ok = attempt(w, [&] { m.erase(it->first); }); // the key is part of the erased element
            if (ok) {
                sim::Quiet q;
                ref[i].erase(k);
            } else failed_at(i, k, w);
            break;
        }
        case CLEAR: {
            m.clear();
            sim::Quiet q;
            ref[i].clear();
            break;
        }
        case RESERVE: {
            size_t n = (size_t)(o.a[2] % 300);
            bool ok = attempt(w, [&] {
                if constexpr (T::hash) m.reserve(n);
                else if (o.a[3] & 1) m.reserve_dense(n);
                else m.reserve_sparse(n);
            });
            if (!ok) check(i, w);
            break;
        }
        case COPY_CTOR:
            if constexpr (T::copy) {
                std::unique_ptr<M> n;
                bool ok = attempt(w, [&] { n = std::make_unique<M>(std::as_const(m)); });
                if (ok) {
                    c[1 - i] = std::move(n);
                    sim::Quiet q;
                    ref[1 - i] = ref[i];
                }
                check(i, w);
                check(1 - i, w);
            }
            break;
        case COPY_ASSIGN:
            if constexpr (T::copy) {
                int j = o.a[3] % 7 == 0 ? i : 1 - i;
                bool ok = attempt(w, [&] { *c[j] = std::as_const(m); });
                if (ok) {
                    sim::Quiet q;
                    if (i != j) ref[j] = ref[i];
                } else failed_all(j, ref[i], w);
                check(i, w);
            }
            break;
        case MOVE_CTOR: {
            std::unique_ptr<M> n;
            bool ok = attempt(w, [&] { n = std::make_unique<M>(std::move(m)); });
            if (ok) {
                c[1 - i] = std::move(n);
                {
                    sim::Quiet q;
                    std::swap(ref[1 - i], ref[i]);
                    ref[i] = read(m, w); // valid, and usable from now on
                }
            }
            check(0, w);
            check(1, w);
            break;
        }
        case MOVE_ASSIGN: {
            bool ok = attempt(w, [&] { *c[1 - i] = std::move(m); });
            if (ok) {
                sim::Quiet q;
                ref[1 - i] = ref[i];
                ref[i] = read(m, w);
            }
            check(0, w);
            check(1, w);
            break;
        }
        case SWAP: {
            bool ok = attempt(w, [&] {
                if constexpr (T::hash) m.swap(std::move(*c[1 - i]));
                else std::swap(m, *c[1 - i]);
            });
            if (ok) {
                sim::Quiet q;
                std::swap(ref[0], ref[1]);
            }
            check(0, w);
            check(1, w);
            break;
        }
        case RANGE_CTOR:
            if constexpr (T::hash && T::copy) {
                std::unique_ptr<M> n;
                std::vector<typename M::value_type> src;
                std::map<int64_t, int64_t> r;
                {
                    sim::Quiet q;
                    int cnt = (int)(o.a[3] % 40);
                    src.reserve((size_t)cnt);
                    for (int x = 0; x < cnt; x++) {
                        int64_t kk = (k + x * (1 + o.a[2] % 3)) % T::max_key;
                        if constexpr (T::set) src.emplace_back(make_key(kk)), r[kk] = kk;
                        else src.emplace_back(make_key(kk), V(v + x)), r[kk] = v + x;
                    }
                }
                bool ok = attempt(w, [&] { n = std::make_unique<M>(src.begin(), src.end()); });
                if (ok) {
                    c[i] = std::move(n);
                    sim::Quiet q;
                    ref[i] = r;
                }
                check(i, w);
                sim::Quiet q;
                src.clear();
            }
            break;
        case ALIAS: // a value that is an element of the container itself
            if constexpr (T::copy && !T::set) {
                int64_t from = -1;
                {
                    sim::Quiet q;
                    if (ref[i].empty()) break;
                    auto it = ref[i].lower_bound(o.a[3] % T::max_key);
                    if (it == ref[i].end()) it = ref[i].begin();
                    from = it->first;
                    v = it->second;
                }
                K key = make_key(k), src = make_key(from);
                bool ok = attempt(w, [&] {
                    auto [it, ins] = m.emplace(std::move(key), std::as_const(m).at(src));
                    returned(i, *it, ins, k, had, w);
                });
                if (ok) put(i, k, v);
                else failed_at(i, k, w);
            }
            break;
        case MASS_INSERT:
        case MASS_ERASE: {
            int64_t n = o.a[3] % (T::max_key == 256 ? 260 : 120), stride = 1 + o.a[4] % 5;
            for (int64_t x = 0; x < n; x++) {
                Op p = o;
                p.k = o.k == MASS_INSERT ? EMPLACE : ERASE;
                p.a[1] = (k + x * stride) % T::max_key;
                p.a[2] = v + x;
                step(p);
            }
            break;
        }
        case WRITE: { // through iteration
            int64_t d = o.a[3] % 50;
            if constexpr (!T::set) {
                for (auto it = m.begin(); it != m.end();) {
                    it->second.assign(val(it->second) + d);
                    if (d & 1) ++it;
                    else it++;
                }
                sim::Quiet q;
                for (auto& [kk, vv] : ref[i]) vv += d;
            }
            break;
        }
        case FIND: check(i, w); break;
        default: check(0, w); check(1, w);
        }
        sim::Quiet q;
        uint64_t h = 0;
        for (auto& [kk, vv] : ref[0]) h = h * 31 + (uint64_t)kk * 7 + (uint64_t)vv;
        sim::state(h);
    }
    void go(const Case& cs) {
        for (auto& x : c) x = std::make_unique<M>();
        int n = 0;
        for (auto& o : cs.ops) {
            step(o);
            if (++n % cs.p[2] == 0) check((int)(o.a[0] & 1), op_name[o.k]);
        }
        sim::settle();
        faults = false;
        check(0, "the whole history");
        check(1, "the whole history");
    }
};

void run_case(const Case& c, bool faults) {
    track_life = true;
    track_align = true;
    hash_mode = (int)c.p[1];
    {
        switch (c.p[0]) {
        case 0: Run<HashMap<uint32_t, J>>{ faults }.go(c); break;
        case 1: Run<HashMap<Key, J>>{ faults }.go(c); break;
        case 2: Run<HashMap<uint64_t, Mo>>{ faults }.go(c); break;
        case 3: Run<HashSet<Key>>{ faults }.go(c); break;
        case 4: Run<SparseMap<uint8_t, J>>{ faults }.go(c); break;
        case 5: Run<SparseMap<uint16_t, B>>{ faults }.go(c); break;
        case 6: Run<SparseMap<uint32_t, Mo>>{ faults }.go(c); break;
        default: Run<HashSet<uint32_t>>{ faults }.go(c); break;
        }
    }
    all_destroyed("the containers are destroyed");
    sim::check_leaks("after the containers were destroyed");
}
void run_clean(const Case& c) { run_case(c, false); }
void run_fault(const Case& c) { run_case(c, true); }

void gen(Rng& g, Case& c) {
    c.p = { g.pick(0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 7), g.pick(0, 0, 1, 2, 3, 4), g.pick(1, 4, 20) };
    int weights[N_OPS] = { 6, 6, 4, 4, 6, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 1, 1, 0 };
    int tot = 0;
    for (auto& w : weights) tot += (w *= (int)g.pick(0, 1, 1, 2));
    if (!tot) weights[0] = tot = 1;
    int keys = (int)g.pick(6, 20, 40, 300);
    int n = (int)g.range(2, g.chance(1, 3) ? 90 : 30);
    for (int i = 0; i < n; i++) {
        Op o;
        int64_t p = g.below(tot);
        for (int k = 0; k < N_OPS; k++)
            if ((p -= weights[k]) < 0) {
                o.k = k;
                break;
            }
        if (i == 0 && g.chance(1, 2)) o.k = MASS_INSERT;
        o.a[0] = g.chance(1, 5);
        o.a[1] = g.below(keys);
        o.a[2] = g.below(1000);
        o.a[3] = g.below(1000);
        o.a[4] = g.below(100);
        c.ops.push_back(o);
    }
}
std::string show(const Case& c, const Op& o) {
    static const char* kinds[] = { "hash_map<uint32,J>", "hash_map<Key,J>", "hash_map<uint64,MoveOnly>", "hash_set<Key>", "sparse_map<uint8,J>", "sparse_map<uint16,B>", "sparse_map<uint32,MoveOnly>", "hash_set<uint32>" };
    char b[160];
    std::snprintf(b, sizeof b, "%s #%d: %s key=%lld value=%lld arg=%lld", kinds[c.p[0]], (int)(o.a[0] & 1), op_name[o.k], (long long)o.a[1], (long long)o.a[2], (long long)o.a[3]);
    return b;
}
constexpr unsigned F = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);
sim::Register reg_c17({ "C17", { { "faults", 2, F, gen, run_fault, show, "histories over two containers with allocations and copies failing anywhere", sim::NO_RACE },
                                 { "clean", 1, 0, gen, run_clean, show, "the same histories without faults", sim::NO_RACE } },
    { "failed-injected" } });

} // namespace
