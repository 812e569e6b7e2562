// dsim driver: seeds -> cases -> forked runs; violation search, determinism sampling, minimisation, replay files.
#include "rt.hpp"

#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace rt;
using sim::Case;
using sim::K_N;
using sim::Op;
using sim::Scenario;
using u64 = uint64_t;
using u32 = uint32_t;

static u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static double now_s() {
    timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec * 1e-6;
}
static const sim::Property* find_prop(const std::string& id) {
    for (auto& p : sim::properties()) if (p.id == id) return &p;
    fprintf(stderr, "no property %s in this binary\n", id.c_str());
    exit(2);
}

struct Outcome {
    int status; // 1 ok 2 violation 3 error
    std::string cls, msg;
    u64 hash;
};
static Outcome run_once(const Cfg& cfg, const Scenario& sc, const Case& c) {
    Shared* s = shared;
    memset((void*)s, 0, offsetof(Shared, dec));
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) child_main(cfg, sc, c);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.status = s->status;
    o.cls = s->cls;
    o.msg = s->msg;
    o.hash = s->hash;
    if (s->status == 0) {
        if (WIFSIGNALED(st)) {
            o.status = WTERMSIG(st) == SIGKILL ? 3 : 2;
            o.cls = "crash:signal" + std::to_string(WTERMSIG(st));
            o.msg = "run died from a signal";
        } else {
            o.status = 2;
            o.cls = "exit";
            o.msg = "the process exited in the middle of the run";
        }
    }
    return o;
}

struct Plan {
    const Scenario* sc;
    int sci;
    Case c;
    Cfg cfg;
};
static void strategy(Cfg& cfg, const Scenario& sc, u64 seed) {
    sim::Rng g{ seed };
    cfg.seed = seed;
    cfg.rotate = (u32)g.pick(32, 64, 64, 128);
    auto has = [&](int k) { return (sc.kinds >> k) & 1; };
    if (!has(sim::K_SWITCH)) cfg.strategy = 2;
    else {
        int r = (int)g.below(100);
        if (r < 4) cfg.strategy = 2;
        else if (r < 60) {
            cfg.strategy = 0;
            cfg.p_switch = (u32)g.pick(300, 1200, 3500, 9000, 20000, 40000);
        } else {
            cfg.strategy = 1;
            cfg.pct_d = (int)g.range(1, 6);
            cfg.pct_k = (u32)g.pick(100, 300, 1000, 3000, 8000);
        }
    }
    auto rate = [&](int k, int num, int den, std::initializer_list<u32> rs) {
        bool on = g.chance(num, den);
        u32 v = *(rs.begin() + g.below((int64_t)rs.size()));
        cfg.rate[k] = has(k) && on ? v : 0;
    };
    rate(sim::K_STALE, 2, 3, { 1500, 8000, 25000 });
    rate(sim::K_ALLOC, 2, 3, { 400, 2500, 9000 });
    rate(sim::K_THROW, 2, 3, { 600, 3000, 9000 });
    rate(sim::K_SPUR, 1, 2, { 2000, 20000 });
    rate(sim::K_TIME, 1, 2, { 60, 600, 6000 });
    rate(sim::K_WEAKCAS, 1, 2, { 1000, 10000 });
    rate(sim::K_THREAD, 2, 3, { 6000, 16000 });
    rate(sim::K_STALL, 1, 3, { 30, 150, 600 });
}
static Plan make_plan(const sim::Property& p, u64 seed, u64 idx) {
    Plan pl;
    u64 h = mix64(seed * 1000003 + mix64(idx) + mix64((u64)(p.id[1] * 1000 + p.id[2])));
    int total = 0;
    for (auto& s : p.scenarios) total += s.weight;
    int x = (int)(h % (u64)total);
    pl.sci = 0;
    for (auto& s : p.scenarios) {
        if (x < s.weight) break;
        x -= s.weight;
        pl.sci++;
    }
    pl.sc = &p.scenarios[pl.sci];
    sim::Rng g{ mix64(h ^ 0xABCDEF) };
    pl.sc->gen(g, pl.c);
    strategy(pl.cfg, *pl.sc, mix64(h ^ 0x123457));
    return pl;
}

static void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

// ------------------------------------------------------------------------------------------------ replay files
static std::string show_op(const Plan& pl, const Op& o) {
    if (pl.sc->show) return pl.sc->show(pl.c, o);
    std::ostringstream s;
    s << "op" << o.k;
    for (auto v : o.a) s << " " << v;
    return s.str();
}
static void write_replay(const std::string& path, const std::string& prop, const Plan& pl, const std::vector<Dec>& decs, const Outcome& o,
    u64 orig_seed, u64 idx) {
    std::ofstream f(path);
    f << "dsim-replay 1\nproperty " << prop << "\nscenario " << pl.sc->name << "\n";
    f << "# found with VERIF_SEED=" << orig_seed << " run " << idx << "\n";
    f << "seed " << pl.cfg.seed << "\nrotate " << pl.cfg.rotate << "\nmax_steps " << pl.cfg.max_steps << "\nsettle_steps " << pl.cfg.settle_steps << "\n";
    f << "class " << o.cls << "\nhash " << o.hash << "\n# " << o.msg << "\n";
    f << "params";
    for (auto v : pl.c.p) f << " " << v;
    f << "\n";
    for (auto& op : pl.c.ops) {
        f << "op " << op.k;
        for (auto v : op.a) f << " " << v;
        f << "   # " << show_op(pl, op) << "\n";
    }
    for (auto& d : decs)
        f << "dec " << (int)d.kind << " " << (int)d.tid << " " << d.n << " " << d.val << "   # T" << (int)d.tid << "'s " << sim::kind_name[d.kind]
          << " point no. " << d.n << " -> " << d.val << "\n";
    f << "end\n";
}
struct Replay {
    std::string prop, cls;
    u64 hash = 0;
    Plan pl;
    std::vector<Dec> decs;
};
static Replay read_replay(const std::string& path) {
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(2); }
    Replay r;
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        auto hp = line.find('#');
        if (hp != std::string::npos && line.compare(0, 5, "class") != 0) line = line.substr(0, hp);
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "property") s >> r.prop;
        else if (k == "scenario") {
            std::string n;
            s >> n;
            auto* p = find_prop(r.prop);
            r.pl.sc = nullptr;
            for (size_t i = 0; i < p->scenarios.size(); i++)
                if (n == p->scenarios[i].name) { r.pl.sc = &p->scenarios[i]; r.pl.sci = (int)i; }
            if (!r.pl.sc) { fprintf(stderr, "no scenario %s\n", n.c_str()); exit(2); }
        } else if (k == "seed") s >> r.pl.cfg.seed;
        else if (k == "rotate") s >> r.pl.cfg.rotate;
        else if (k == "max_steps") s >> r.pl.cfg.max_steps;
        else if (k == "settle_steps") s >> r.pl.cfg.settle_steps;
        else if (k == "class") s >> r.cls;
        else if (k == "hash") s >> r.hash;
        else if (k == "params") { int64_t v; while (s >> v) r.pl.c.p.push_back(v); }
        else if (k == "op") {
            Op o;
            s >> o.k;
            for (auto& v : o.a) s >> v;
            r.pl.c.ops.push_back(o);
        } else if (k == "dec") {
            int a, b, v;
            u32 n;
            s >> a >> b >> n >> v;
            r.decs.push_back(Dec{ (uint8_t)a, (uint8_t)b, 0, n, v, 0 });
        }
    }
    r.pl.cfg.replay = true;
    r.pl.cfg.strategy = 2;
    return r;
}
static Cfg replay_cfg(const Cfg& c, const std::vector<Dec>& d) {
    Cfg r = c;
    r.replay = true;
    r.strategy = 2;
    r.rdec = d.data();
    r.nrdec = (u32)d.size();
    return r;
}
static std::vector<Dec> recorded() {
    return std::vector<Dec>(shared->dec, shared->dec + shared->ndec);
}

// ------------------------------------------------------------------------------------------------ commands
struct Args {
    std::map<std::string, std::string> m;
    u64 u(const char* k, u64 d) { return m.count(k) ? strtoull(m[k].c_str(), nullptr, 10) : d; }
    std::string s(const char* k, const char* d = "") { return m.count(k) ? m[k] : d; }
};

static int cmd_run(Args& a) {
    auto* p = find_prop(a.s("prop"));
    u64 seed = a.u("seed", 1), first = a.u("first", 0), step = a.u("step", 1), count = a.u("count", 100), det = a.u("det", 50);
    double wall = (double)a.u("wall", 600);
    double t0 = now_s();
    u64 runs = 0, steps = 0, acc = 0, sw = 0, simns = 0, atoms = 0, threads = 0, nontrivial = 0, det_checked = 0, maxsteps = 0;
    u64 inconclusive = 0;
    u64 fired[K_N] = {}, runs_with[K_N] = {}, probes[64] = {};
    std::map<std::string, u64> per_sc;
    std::unordered_set<u64> inter, distinct, states;
    std::string vio_cls, vio_msg, vio_sc;
    u64 vio_idx = ~0ull;
    std::vector<std::string> samples;
    bool stopped = false;
    for (u64 i = 0; i < count; i++) {
        u64 idx = first + i * step;
        if (now_s() - t0 > wall) { stopped = true; break; }
        Plan pl = make_plan(*p, seed, idx);
        Outcome o = run_once(pl.cfg, *pl.sc, pl.c);
        Shared* s = shared;
        if (o.status == 3) {
            fprintf(stderr, "dsim: run %llu of %s (%s): internal error: %s\n", (unsigned long long)idx, p->id, pl.sc->name, o.msg.c_str());
            return 2;
        }
        runs++;
        inconclusive += s->inconclusive;
        per_sc[pl.sc->name]++;
        steps += s->steps;
        maxsteps = std::max(maxsteps, s->steps);
        acc += s->accesses;
        sw += s->switches;
        simns += s->simns > 1000000000000ull ? s->simns - 1000000000000ull : 0;
        atoms += s->atomics;
        threads += s->threads;
        u64 faults = 0;
        for (int k = 0; k < K_N; k++) {
            fired[k] += s->fired[k];
            runs_with[k] += s->fired[k] != 0;
            faults += s->fired[k];
        }
        for (int k = 0; k < 64; k++) probes[k] += s->probes[k] != 0;
        u64 wh = 0;
        for (auto& op : pl.c.ops) { wh = mix64(wh + op.k); for (auto v : op.a) wh = mix64(wh ^ (u64)v); }
        for (auto v : pl.c.p) wh = mix64(wh + 7 + (u64)v);
        inter.insert(s->ihash);
        states.insert(s->shash);
        if (s->switches || faults || pl.c.ops.size() >= 3) {
            nontrivial++;
            distinct.insert(mix64(s->ihash ^ mix64(s->shash ^ mix64(wh))));
        }
        if (samples.size() < 3 && (i % 7) == 0) {
            std::ostringstream x;
            x << pl.sc->name << " run " << idx << ": params";
            for (auto v : pl.c.p) x << " " << v;
            x << "; ops";
            int n = 0;
            for (auto& op : pl.c.ops) { if (n++ == 12) { x << " ... (" << pl.c.ops.size() << ")"; break; } x << " [" << show_op(pl, op) << "]"; }
            x << "; threads " << s->threads << ", steps " << s->steps << ", switches " << s->switches << ", faults";
            for (int k = 1; k < K_N; k++) if (s->fired[k]) x << " " << sim::kind_name[k] << "*" << s->fired[k];
            samples.push_back(x.str());
        }
        if (o.status == 2) {
            vio_idx = idx;
            vio_cls = o.cls;
            vio_msg = o.msg;
            vio_sc = pl.sc->name;
            break;
        }
        if (det && (i % det) == det / 2) {
            Outcome o2 = run_once(pl.cfg, *pl.sc, pl.c);
            det_checked++;
            if (o2.hash != o.hash || o2.status != o.status) {
                fprintf(stderr, "dsim: run %llu of %s (%s) is not deterministic\n", (unsigned long long)idx, p->id, pl.sc->name);
                return 2;
            }
        }
    }
    FILE* f = fopen(a.s("out", "/dev/stdout").c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"max_steps\":%llu,\"accesses\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"atomics\":%llu,\"threads\":%llu,\"nontrivial\":%llu,\"determinism_checked\":%llu,\"inconclusive\":%llu,\"stopped_by_wall\":%d,\"wall\":%.3f",
        (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)maxsteps, (unsigned long long)acc, (unsigned long long)sw, (unsigned long long)simns, (unsigned long long)atoms,
        (unsigned long long)threads, (unsigned long long)nontrivial, (unsigned long long)det_checked, (unsigned long long)inconclusive, stopped, now_s() - t0);
    fprintf(f, ",\"fired\":{");
    for (int k = 0; k < K_N; k++) fprintf(f, "%s\"%s\":[%llu,%llu]", k ? "," : "", sim::kind_name[k], (unsigned long long)fired[k], (unsigned long long)runs_with[k]);
    fprintf(f, "},\"probes\":{");
    for (size_t k = 0; k < p->probes.size(); k++) { if (k) fputc(',', f); json_str(f, p->probes[k]); fprintf(f, ":%llu", (unsigned long long)probes[k]); }
    fprintf(f, "},\"scenarios\":{");
    bool c = false;
    for (auto& [n, v] : per_sc) { if (c) fputc(',', f); c = true; json_str(f, n); fprintf(f, ":%llu", (unsigned long long)v); }
    fprintf(f, "},\"samples\":[");
    c = false;
    for (auto& x : samples) { if (c) fputc(',', f); c = true; json_str(f, x); }
    fprintf(f, "]");
    if (vio_idx != ~0ull) {
        fprintf(f, ",\"violation\":{\"run\":%llu,\"scenario\":", (unsigned long long)vio_idx);
        json_str(f, vio_sc);
        fprintf(f, ",\"class\":");
        json_str(f, vio_cls);
        fprintf(f, ",\"msg\":");
        json_str(f, vio_msg);
        fprintf(f, "}");
    }
    fprintf(f, "}\n");
    fclose(f);
    if (a.m.count("hashes")) {
        FILE* h = fopen(a.s("hashes").c_str(), "w");
        for (auto v : distinct) fprintf(h, "d %llx\n", (unsigned long long)v);
        for (auto v : inter) fprintf(h, "i %llx\n", (unsigned long long)v);
        for (auto v : states) fprintf(h, "s %llx\n", (unsigned long long)v);
        fclose(h);
    }
    return vio_idx != ~0ull ? 1 : 0;
}

static int cmd_minimize(Args& a) {
    auto* p = find_prop(a.s("prop"));
    u64 seed = a.u("seed", 1), idx = a.u("run", 0);
    int budget = (int)a.u("budget", 1500);
    double t0 = now_s(), wall = (double)a.u("wall", 60);
    Plan pl = make_plan(*p, seed, idx);
    Outcome o = run_once(pl.cfg, *pl.sc, pl.c);
    if (o.status != 2) { fprintf(stderr, "run %llu does not violate on repetition\n", (unsigned long long)idx); return 2; }
    std::string cls = o.cls;
    auto decs = recorded();
    u64 h0 = o.hash;
    Outcome o2 = run_once(pl.cfg, *pl.sc, pl.c);
    if (o2.status != 2 || o2.cls != cls || o2.hash != h0) { fprintf(stderr, "violation is not deterministic\n"); return 2; }
    if (shared->dec_overflow) { fprintf(stderr, "too many decisions to replay\n"); return 2; }
    {
        Outcome r = run_once(replay_cfg(pl.cfg, decs), *pl.sc, pl.c);
        if (r.status != 2 || r.cls != cls || r.hash != h0) {
            fprintf(stderr, "recorded decisions do not reproduce the violation (%d %s %s; %llx vs %llx)\n", r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)h0);
            return 2;
        }
    }
    size_t ops0 = pl.c.ops.size(), decs0 = decs.size();
    auto as_recorded = [&] { // the run as it was found
        Plan pl0 = make_plan(*p, seed, idx);
        Outcome r = run_once(pl0.cfg, *pl0.sc, pl0.c);
        auto d = recorded();
        Outcome g = run_once(replay_cfg(pl0.cfg, d), *pl0.sc, pl0.c);
        if (r.status != 2 || g.status != 2 || g.hash != r.hash) { fprintf(stderr, "run %llu is not stable\n", (unsigned long long)idx); return 2; }
        write_replay(a.s("out"), p->id, pl0, d, g, seed, idx);
        printf("{\"ops_before\":%zu,\"ops_after\":%zu,\"decisions_before\":%zu,\"decisions_after\":%zu}\n", ops0, ops0, decs0, d.size());
        return 0;
    };
    if (a.u("asis", 0)) return as_recorded();
    int used = 0;
    auto over = [&] { return used > budget || now_s() - t0 > wall; };
    // 1. drop workload steps
    bool quiet_only = (pl.sc->kinds & (1u << sim::K_SWITCH)) == 0;
    auto try_case = [&](const Case& c) {
        // same decisions, then same strategy, then a few other seeds
        {
            used++;
            Outcome r = run_once(replay_cfg(pl.cfg, decs), *pl.sc, c);
            if (r.status == 2 && r.cls == cls) { decs = recorded(); return true; }
        }
        int alt = quiet_only ? 6 : 10;
        for (int j = 0; j < alt && !over(); j++) {
            Cfg cc = pl.cfg;
            if (j) cc.seed = mix64(pl.cfg.seed + j);
            used++;
            Outcome r = run_once(cc, *pl.sc, c);
            if (r.status == 2 && r.cls == cls) { pl.cfg = cc; decs = recorded(); return true; }
        }
        return false;
    };
    for (size_t chunk = std::max<size_t>(1, pl.c.ops.size() / 2); !over();) {
        bool any = false;
        for (size_t i = 0; i < pl.c.ops.size() && !over();) {
            Case c = pl.c;
            size_t e = std::min(c.ops.size(), i + chunk);
            c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
            if (try_case(c)) { pl.c = c; any = true; }
            else i += chunk;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
    }
    // 2. drop decisions
    used = 0;
    t0 = now_s();
    auto try_decs = [&](const std::vector<Dec>& d) {
        used++;
        Outcome r = run_once(replay_cfg(pl.cfg, d), *pl.sc, pl.c);
        if (r.status == 2 && r.cls == cls) { decs = recorded(); return true; }
        return false;
    };
    try_decs({});
    for (size_t chunk = std::max<size_t>(1, decs.size() / 2); !over() && !decs.empty();) {
        bool any = false;
        for (size_t i = 0; i < decs.size() && !over();) {
            auto d = decs;
            size_t e = std::min(d.size(), i + chunk);
            d.erase(d.begin() + i, d.begin() + e);
            size_t before = decs.size();
            if (try_decs(d) && decs.size() < before) { any = true; }
            else i += chunk;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
    }
    Cfg rc = replay_cfg(pl.cfg, decs);
    Outcome f = run_once(rc, *pl.sc, pl.c);
    auto fd = recorded();
    Outcome g = run_once(replay_cfg(pl.cfg, fd), *pl.sc, pl.c);
    if (f.status != 2 || g.status != 2 || f.cls != cls || g.cls != cls || g.hash != f.hash) return as_recorded();
    write_replay(a.s("out"), p->id, pl, fd, g, seed, idx);
    printf("{\"ops_before\":%zu,\"ops_after\":%zu,\"decisions_before\":%zu,\"decisions_after\":%zu}\n", ops0, pl.c.ops.size(), decs0, fd.size());
    return 0;
}

static int cmd_replay(Args& a) {
    Replay r = read_replay(a.s("file"));
    Cfg c = replay_cfg(r.pl.cfg, r.decs);
    c.trace = a.u("trace", 1);
    c.watch = strtoull(a.s("watch", "0").c_str(), nullptr, 0);
    Outcome o = run_once(c, *r.pl.sc, r.pl.c);
    if (c.trace && shared->ntrace) fwrite(shared->trace, 1, shared->ntrace, stdout);
    printf("outcome %s class=%s hash=%llu msg=%s\n", o.status == 2 ? "violation" : o.status == 1 ? "ok" : "error", o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    for (int i = 0; i < shared->nbt; i++) printf("bt %#lx\n", (unsigned long)shared->bt[i]);
    bool same = o.status == 2 && o.cls == r.cls && o.hash == r.hash;
    printf("reproduced %d\n", same);
    return same ? 1 : o.status == 1 ? 0 : 2;
}
static int cmd_one(Args& a) { // debugging: one run, with trace
    auto* p = find_prop(a.s("prop"));
    Plan pl = make_plan(*p, a.u("seed", 1), a.u("run", 0));
    pl.cfg.trace = a.u("trace", 1);
    pl.cfg.watch = strtoull(a.s("watch", "0").c_str(), nullptr, 0);
    Outcome o = run_once(pl.cfg, *pl.sc, pl.c);
    printf("scenario %s params", pl.sc->name);
    for (auto v : pl.c.p) printf(" %lld", (long long)v);
    printf("\n");
    for (auto& op : pl.c.ops) printf("  %s\n", show_op(pl, op).c_str());
    if (shared->ntrace) fwrite(shared->trace, 1, shared->ntrace, stdout);
    printf("status %d class=%s hash=%llx steps=%llu msg=%s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)shared->steps, o.msg.c_str());
    for (int i = 0; i < shared->nbt; i++) printf("bt %#lx\n", (unsigned long)shared->bt[i]);
    return o.status;
}

int main(int argc, char** argv) {
    if (!getenv("DSIM_NOASLR")) {
        setenv("DSIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    init_process();
    Args a;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a.m[std::string(argv[i]).substr(2)] = argv[i + 1];
    if (a.m.count("cpu")) {
        cpu_set_t s;
        CPU_ZERO(&s);
        CPU_SET((int)a.u("cpu", 0), &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    if (cmd == "list") {
        for (auto& p : sim::properties())
            for (auto& s : p.scenarios) printf("%s\t%s\t%s\n", p.id, s.name, s.desc);
        return 0;
    }
    if (cmd == "run") return cmd_run(a);
    if (cmd == "minimize") return cmd_minimize(a);
    if (cmd == "replay") return cmd_replay(a);
    if (cmd == "one") return cmd_one(a);
    fprintf(stderr, "usage: driver list|run|minimize|replay|one\n");
    return 2;
}
