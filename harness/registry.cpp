// C11..C15: the registry, its entities and components, and views over it
#include "world.h"

sim::Scenario layout_scenario();

namespace {

void run_world(const Case& c, Cfg cfg) {
    track_life = cfg.life;
    track_align = cfg.content;
    {
        World w(cfg);
        int every = (int)c.p[0];
        int n = 0;
        for (const Op& o : c.ops) {
            w.step(o);
            if (++n % every == 0) w.check(op_name[o.k]);
        }
        sim::settle();
        w.cfg.faults = false;
        w.check("the whole history");
        if (cfg.life) {
            w.flush(false);
        } else if (cfg.faults && cfg.content) {
            // later operations behave as if the failed ones had not been attempted
            for (int r = 0; r < 2; r++)
                for (int i = 0; i < 4; i++) w.create(r, 1 + i, 900 + i, "create");
            if (auto* e = w.pick(0, 3)) w.set(0, e, 1, 77, 0);
            if (auto* e = w.pick(0, 2)) w.transfer(0, e);
            if (auto* e = w.pick(1, 1)) w.destroy(1, e, true);
            w.check("operations after the faults stopped");
        }
    }
    if (cfg.life) {
        all_destroyed("the registries are destroyed and all commands were flushed");
        sim::check_leaks("after the registries were destroyed");
    }
}

void gen_handles(Rng& g, Case& c) {
    gen_ops(g, c, { { CREATE, 8 }, { DESTROY, 8 }, { STALE, 4 }, { RESERVE, 3 }, { SYNC, 2 }, { FILL, 3 }, { RELEASE, 2 }, { CLONE, 2 }, { XMOVE, 2 }, { XCOPY, 1 }, { MASS_CREATE, 1 }, { MASS_DESTROY, 1 }, { SET, 1 }, { REMOVE, 1 } }, 90);
    for (auto& o : c.ops) {
        if (o.k == CREATE && g.chance(1, 2)) o.a[1] = 0;
        if (o.k == MASS_CREATE && g.chance(1, 2)) o.a[1] = 0, o.a[4] = g.range(2, 30);
    }
}
void gen_content(Rng& g, Case& c) { gen_ops(g, c, { STRUCTURAL, { RESERVE, 1 }, { FILL, 1 }, { STALE, 1 }, { RECREATE, 0 } }, 100); }
void gen_fault(Rng& g, Case& c) { gen_ops(g, c, { STRUCTURAL, { RESERVE, 1 }, { FILL, 2 }, { STALE, 1 }, { SYNC, 1 }, { RELEASE, 1 } }, 70); }
void gen_life(Rng& g, Case& c) { gen_ops(g, c, { STRUCTURAL, { RESERVE, 1 }, { FILL, 1 }, { STALE, 1 }, { CMD, 6 }, { FLUSH, 3 }, { THREAD_CMD, 1 } }, 80); }
void gen_life_clean(Rng& g, Case& c) { gen_ops(g, c, { STRUCTURAL, { RESERVE, 1 }, { FILL, 1 }, { RECREATE, 1 } }, 100); }
void gen_views(Rng& g, Case& c) {
    gen_ops(g, c, { STRUCTURAL, { VIEW, 14 }, { VIEW, 4 } }, 80);
    if (g.chance(1, 3)) return;
    // a run about one view, mostly used in one way
    static const std::vector<uint32_t> masks = World::masks(std::type_identity<World::Views>{});
    int64_t v = g.below(masks.size()), how = g.below(8);
    std::vector<int> packs;
    for (int i = 0; i < NPACKS; i++)
        if ((pack_masks[i] & masks[(size_t)v]) == masks[(size_t)v]) packs.push_back(i);
    if (packs.empty()) return;
    int64_t pack = packs[g.below(packs.size())];
    for (auto& o : c.ops) {
        if (!g.chance(3, 4)) continue;
        o.a[0] = 0;
        if (o.k == VIEW) {
            o.a[1] = v, o.a[5] = 0;
            if (g.chance(3, 4)) o.a[4] = how;
        }
        if (o.k == CREATE || o.k == MASS_CREATE) {
            o.a[1] = g.chance(2, 3) ? pack : packs[g.below(packs.size())];
            if (o.k == MASS_CREATE) o.a[4] = g.range(2, pack_masks[pack] & (1u << 5 | 1u << 6 | 1u << 9 | 1u << 10) ? 9 : 36);
        }
    }
}

void run_handles(const Case& c) { run_world(c, Cfg{ .handles = true }); }
void run_content(const Case& c) { run_world(c, Cfg{ .content = true }); }
void run_fault(const Case& c) { run_world(c, Cfg{ .content = true, .faults = true }); }
void run_life(const Case& c) { run_world(c, Cfg{ .faults = true, .life = true }); }
void run_life_clean(const Case& c) { run_world(c, Cfg{ .faults = false, .life = true }); }
void run_views(const Case& c) { run_world(c, Cfg{ .views = true }); }

constexpr unsigned F = (1u << sim::K_ALLOC) | (1u << sim::K_THROW);
sim::Register reg_c11({ "C11", { { "handles", 1, 0, gen_handles, run_handles, show_op, "create/destroy/reserve/clone/move histories with stale handles used through every operation", sim::NO_RACE } }, { "failed-injected", "failed-expected", "view" } });
sim::Register reg_c12({ "C12", { layout_scenario(), { "content", 5, 0, gen_content, run_content, show_op, "histories over two registries and 16 component types against a map model", sim::NO_RACE } }, { "failed-injected", "failed-expected", "view" } });
sim::Register reg_c13({ "C13", { { "faults", 1, F, gen_fault, run_fault, show_op, "the same histories with allocations, constructors and copies failing anywhere inside operations", sim::NO_RACE } }, { "failed-injected", "failed-expected", "view" } });
sim::Register reg_c14({ "C14", { { "life-commands", 2, F, gen_life, run_life, show_op, "every object's life is tracked through operations, commands, faults and destruction of the registries", sim::NO_RACE },
                                 { "life", 1, 0, gen_life_clean, run_life_clean, show_op, "every object's life is tracked through operations and destruction, no faults", sim::NO_RACE } }, { "failed-injected", "failed-expected", "view" } });
sim::Register reg_c15({ "C15", { { "views", 1, 0, gen_views, run_views, show_op, "kept and fresh views iterated in every way between changes", sim::NO_RACE } }, { "failed-injected", "failed-expected", "view" } });

} // namespace
