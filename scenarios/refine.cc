// Refinement, partitioning and the placing of points. The oracle works on tuples of
// node numbers and on exact (dyadic) coordinates.
#include "meshes.h"

// the external partitioner, which may be told to fail
namespace {
    int metis_fault = 0;
    int metis_calls = 0;
}
extern "C" int __real_METIS_PartMeshDual(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, idx_t *, idx_t *, idx_t *, idx_t *);
extern "C" int __wrap_METIS_PartMeshDual(idx_t * ne, idx_t * nn, idx_t * eptr, idx_t * eind, idx_t * vw, idx_t * vs, idx_t * nc, idx_t * np, real_t * tp, idx_t * opt, idx_t * cut, idx_t * ep, idx_t * npart)
{
    sim::Host h;
    ++metis_calls;
    if (metis_fault) {
        int f = metis_fault;
        fault("partitioner-failure");
        if (f == 1) return METIS_ERROR_INPUT;
        if (f == 2) return METIS_ERROR_MEMORY;
        // fails after having scribbled over the output
        for (idx_t i = 0; i < *ne; ++i) ep[i] = i % 2;
        return METIS_ERROR;
    }
    return __real_METIS_PartMeshDual(ne, nn, eptr, eind, vw, vs, nc, np, tp, opt, cut, ep, npart);
}

namespace {
    const char * L(const char * base, bool faulted, const char * what)
    {
        static char b[96];
        snprintf(b, sizeof b, "%s%s/%s", faulted ? "M06," : "", base, what);
        return b;
    }

    // ------------------------------------------------------------------ refinement, M04
    enum { K_BUILD, K_REFINE, K_REFINE_MANY };

    void gen_refine_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(6);
        p.cfg["nodes"] = r.range(5, 12);
        p.cfg["cells"] = r.range(1, tier ? 24 : 10);
        p.cfg["grid"] = r.chance(0.3) ? r.range(1, 3) : 0;
        p.cfg["world"] = (i64) (r.next() & 0xffffff);
        i64 n = r.range(2, 6);
        double rate = r.pick({ 20, 60 }) / 100.0;
        i64 span = r.pick({ 10, 60, 300 });
        for (i64 i = 0; i < n; ++i) {
            Op o { r.below(3), r.pick({ K_BUILD, K_REFINE, K_REFINE, K_REFINE_MANY }), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (mode && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_refine(Rng & r, Plan & p, int tier) { gen_refine_any(r, p, tier, 0); }
    void gen_refine_faults(Rng & r, Plan & p, int tier) { gen_refine_any(r, p, tier, 1); }

    template <int N, int D>
    void refine(const Plan & p)
    {
        start_memory(p);
        using W = World<N, D>;
        using mesh_type = typename W::mesh_type;
        std::unique_ptr<typename W::cs_t> cs;
        std::unique_ptr<mesh_type> m;
        std::vector<typename W::node_t> nodes;
        bool faulted = false;
        Rng world((u64) p.get("world"));
        int g = (int) p.get("grid");
        if (N == 3) g = std::min(g, 2);
        auto fresh = [&](u64 seed) {
            auto b = g ? grid<N, D>(seed, g) : blueprint<N, D>(seed, (int) p.get("nodes", 5), (int) p.get("cells", 1));
            Sut in;
            m.reset();
            nodes.clear();
            cs.reset(new typename W::cs_t());
            scatter(world, (int) world.below(6));
            m = W::build(b, *cs, nodes, &world, 0.2);
        };
        fresh((u64) p.get("world") ^ 1);
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            if (op.kind == K_BUILD) {
                fresh((u64) op.a);
                continue;
            }
            View<mesh_type> before(*m, *cs);
            int levels = op.kind == K_REFINE ? 1 : (int) (op.b % (N == 1 ? 5 : N == 2 ? 4 : 3));
            // keep it affordable
            size_t total = before.cells.size();
            for (int i = 0; i < levels; ++i) total <<= N;
            if (total > 4000) levels = 1, total = before.cells.size() << N;
            if (total > 8000) continue;
            std::unique_ptr<mesh_type> f;
            auto go = [&] { f.reset(new mesh_type(msh::tetra(*m, *cs, levels))); };
            Outcome o = act(op, go);
            if (!o.ok) {
                if (!o.bad_alloc || !op.fk) fail(L("M04", false, "refused"), "refining threw: %s", o.what.c_str());
                faulted = true;
                probe("request-failed");
                View<mesh_type> now(*m, *cs);
                if (now.cells != before.cells || now.x != before.x) fail("M06/mesh-changed", "refining failed and left the mesh changed");
                Op again = op;
                again.fk = 0;
                o = act(again, go);
                if (!o.ok) fail("M06/not-usable", "refining still fails after the fault is over: %s", o.what.c_str());
            }
            View<mesh_type> now(*m, *cs), fine(*f, *cs);
            if (now.cells != before.cells || now.x != before.x) fail(L("M04", faulted, "original"), "refining changed the original mesh");
            if (f->nCells() != (int) total || fine.cells.size() != total) fail(L("M04", faulted, "count"), "%d subdivisions of %zu cells gave %zu", levels, before.cells.size(), fine.cells.size());
            if (fine.twice) fail(L("M04", faulted, "sharing"), "after %d subdivisions a vertex of the refined mesh has two points, or a point two vertices", levels);
            // measure and orientation of each child
            if (fine.wedges(fine.cells) != children(before.wedges(before.cells), 1 << (N * levels)))
                fail(L("M04", faulted, "measure"), "after %d subdivisions some cell does not have the measure and orientation of its share of its parent", levels);
            // the subdivided boundary is the boundary of the subdivision
            auto cb = before.boundary(), fb = fine.boundary();
            if (fb.size() != cb.size() << ((N - 1) * levels)) fail(L("M04", faulted, "conformity"), "after %d subdivisions a boundary of %zu facets became one of %zu", levels, cb.size(), fb.size());
            if (N > 1 && fine.wedges(fb) != children(before.wedges(cb), 1 << ((N - 1) * levels))) fail(L("M04", faulted, "boundary"), "after %d subdivisions the boundary is not the subdivided boundary", levels);
            int bs;
            {
                Sut in;
                bs = msh::boundary_size(*f);
            }
            if (bs != (int) fb.size()) fail(L("M04,M02", faulted, "boundary-size"), "the refined mesh says its boundary has %d facets, it has %zu", bs, fb.size());
            // the points: those there were and the midpoints of edges, each once
            if (levels == 1) {
                auto want = before.x;
                for (auto [a, b] : before.edges()) {
                    vec<D> q;
                    for (size_t k = 0; k < D; ++k) q[k] = (before.x[(size_t) a][k] + before.x[(size_t) b][k]) / 2;
                    want.push_back(q);
                }
                std::sort(want.begin(), want.end());
                if (fine.points() != want) fail(L("M04", faulted, "points"), "the refined mesh has %zu points, the original points and the midpoints of its edges are %zu%s", fine.x.size(), want.size(), fine.x.size() == want.size() ? " (others)" : "");
            }
            if (levels == 0 && fine.cells != before.cells) fail(L("M04", faulted, "copy"), "no subdivision changes the cells");
            // in one go or one after the other
            if (levels == 2 || (levels > 2 && N < 3)) {
                std::unique_ptr<mesh_type> s;
                {
                    Sut in;
                    s.reset(new mesh_type(msh::tetra(*m, *cs, 1)));
                    for (int i = 1; i < levels; ++i) s.reset(new mesh_type(msh::tetra(*s, *cs, 1)));
                }
                View<mesh_type> one(*s, *cs);
                if (one.points() != fine.points()) fail(L("M04", faulted, "levels"), "%d subdivisions at once give %zu points, one after the other %zu", levels, fine.x.size(), one.x.size());
                probe("levels-compared");
                Sut in;
                s.reset();
            }
            // no node of the original was replaced
            for (auto & [a, i] : before.id)
                if (!fine.id.count(a) && !before.cells.empty()) fail(L("M04", faulted, "nodes"), "a node of the original mesh is not in the refined mesh");
            log("%lld refine %d: %zu -> %zu cells, %zu -> %zu points", (long long) step, levels, before.cells.size(), fine.cells.size(), before.x.size(), fine.x.size());
            state(hcomb(digest(fine.cells, fine.x), (u64) (N * 10 + D)));
            if (levels > 0) probe("refined");
            if (cb.empty() && !before.cells.empty()) probe("closed");
            // go on with the refined mesh, or drop it
            if (op.c % 2 && total < 300) {
                Sut in;
                m = std::move(f);
            } else {
                Sut in;
                f.reset();
            }
        }
        Sut in;
        m.reset();
        cs.reset();
        nodes.clear();
    }
    void run_refine(const Plan & p)
    {
        switch (p.get("kind") % 6) {
        case 0: return refine<2, 2>(p);
        case 1: return refine<3, 3>(p);
        case 2: return refine<2, 3>(p);
        case 3: return refine<1, 1>(p);
        case 4: return refine<1, 2>(p);
        default: return refine<1, 3>(p);
        }
    }
    Registrar reg_refine("refine", gen_refine, run_refine);
    Registrar reg_refine_faults("refine_faults", gen_refine_faults, run_refine);

    // ------------------------------------------------------------------ partitioning, M05
    void gen_partition_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(3);
        p.cfg["grid"] = r.chance(0.75) ? r.range(1, tier ? 9 : 7) : 0;
        p.cfg["nodes"] = r.range(5, 14);
        p.cfg["cells"] = r.range(0, 20);
        p.cfg["world"] = (i64) (r.next() & 0xffffff);
        i64 n = r.range(1, 2);
        for (i64 i = 0; i < n; ++i) {
            Op o { 0, 0, r.below(1 << 16), r.chance(0.7) ? r.range(1, 5) : r.range(1, 12), r.below(1 << 16), r.below(1 << 16) };
            if (mode && r.chance(0.7)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM, F_IO, F_IO });
                o.fn = o.fk == F_IO ? r.range(1, 3) : r.range(1, r.pick({ 5, 40, 200 }));
            }
            p.ops.push_back(o);
        }
    }
    void gen_partition(Rng & r, Plan & p, int tier) { gen_partition_any(r, p, tier, 0); }
    void gen_partition_faults(Rng & r, Plan & p, int tier) { gen_partition_any(r, p, tier, 1); }

    template <int N, int D>
    void partition(const Plan & p)
    {
        start_memory(p);
        using W = World<N, D>;
        using mesh_type = typename W::mesh_type;
        Rng world((u64) p.get("world"));
        int g = (int) p.get("grid");
        if (N == 3) g = std::min(g, 4);
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            auto b = g ? grid<N, D>((u64) op.a, g) : blueprint<N, D>((u64) op.a, (int) p.get("nodes", 5), (int) p.get("cells", 1));
            const int parts = (int) std::max<i64>(1, op.b);
            std::map<std::vector<int>, int> left;
            for (auto & v : b.cells) left[v]++;
            int faulty = (int) (op.c % parts);    // the rank that the fault hits
            bool refused = false;
            size_t biggest = 0;
            for (int rank = 0; rank < parts; ++rank) {
                std::unique_ptr<typename W::cs_t> cs;
                std::vector<typename W::node_t> nodes;
                std::unique_ptr<mesh_type> m, part;
                {
                    // each rank has the same mesh, somewhere else in its memory
                    Sut in;
                    cs.reset(new typename W::cs_t());
                    scatter(world, (int) world.below(40));
                    m = W::build(b, *cs, nodes, nullptr);
                }
                Op mine = op;
                if (rank != faulty) mine.fk = 0;
                auto go = [&] { part.reset(new mesh_type(msh::metis::partition(*m, parts, rank))); };
                metis_calls = 0;
                metis_fault = mine.fk == F_IO ? (int) mine.fn : 0;
                Outcome o = act(mine, go);
                bool external = metis_fault && metis_calls;
                metis_fault = 0;
                if (external && o.ok) fail("M05/failure-unreported", "the external partitioner failed, and rank %d of %d got a mesh of %d cells", rank, parts, part->nCells());
                if (!o.ok) {
                    if (!external && !(o.bad_alloc && mine.fk)) {
                        fail("M05/refused", "partitioning %zu cells into %d parts threw: %s", b.cells.size(), parts, o.what.c_str());
                    }
                    probe(external ? "partitioner-failed" : "request-failed");
                    refused = true;
                    if (m->nCells() != (int) b.cells.size()) fail("M06,M05/mesh-changed", "partitioning failed and left the mesh changed");
                    mine.fk = 0;
                    o = act(mine, go);
                    if (!o.ok) fail("M06,M05/not-usable", "partitioning still fails after the fault is over: %s", o.what.c_str());
                }
                // which cells did it get?
                std::map<const void *, int> number;
                for (size_t i = 0; i < nodes.size(); ++i) number[nodes[i].operator->()] = (int) i;
                size_t got = 0;
                for (auto & c : std::as_const(*part).cells()) {
                    std::vector<int> v;
                    for (auto & n : c.nodes()) {
                        auto it = number.find(n.operator->());
                        if (it == number.end()) fail("M05/foreign-node", "a part has a node that is not in the mesh");
                        v.push_back(it->second);
                    }
                    auto it = left.find(v);
                    if (it == left.end()) fail("M05/foreign-cell", "rank %d of %d has a cell that is not in the mesh", rank, parts);
                    if (it->second-- <= 0) fail("M05/twice", "rank %d of %d has a cell that another rank has as well", rank, parts);
                    ++got;
                }
                if ((int) got != part->nCells()) fail("M05,M01/count", "rank %d counts %d cells, %zu are there", rank, part->nCells(), got);
                biggest = std::max(biggest, got);
                log("%lld rank %d/%d: %zu of %zu cells", (long long) step, rank, parts, got, b.cells.size());
                Sut in;
                part.reset();
                m.reset();
                nodes.clear();
                cs.reset();
            }
            for (auto & [v, n] : left)
                if (n) fail("M05/nobody", "no rank of %d has a certain cell of the mesh of %zu", parts, b.cells.size());
            if (parts > 1 && biggest < b.cells.size()) probe("really-partitioned");
            if (refused) probe("recovered");
            state(hcomb(hcomb(digest(b.cells, b.x), (u64) parts), biggest));
        }
    }
    void run_partition(const Plan & p)
    {
        switch (p.get("kind") % 3) {
        case 0: return partition<2, 2>(p);
        case 1: return partition<3, 3>(p);
        default: return partition<2, 3>(p);
        }
    }
    Registrar reg_partition("partition", gen_partition, run_partition);
    Registrar reg_partition_faults("partition_faults", gen_partition_faults, run_partition);

    // ------------------------------------------------------------------ points, G01
    enum { K_NEW, K_NODE, K_PLACE, K_REPLACE, K_MID, K_CHANGE, K_LOOK, K_UNKNOWN, K_DROP };

    void gen_points_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(2);
        i64 n = r.range(5, tier ? 300 : 100), first = 0;
        if (r.chance(0.03)) n += first = r.range(100, 400);    // a run with many points
        Swarm sw(r, { { K_NEW, 3 }, { K_NODE, 2 }, { K_PLACE, 6 }, { K_REPLACE, 1 }, { K_MID, 2 }, { K_CHANGE, 0.7 }, { K_LOOK, 2 }, { K_UNKNOWN, 0.5 }, { K_DROP, 0.5 } }, { K_NEW, K_PLACE });
        Scheduler sc(r, 3);
        double rate = r.pick({ 5, 20, 50 }) / 100.0;
        i64 span = r.pick({ 2, 5, 20 });
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (i < first) {
                o.kind = r.pick({ K_NEW, K_NODE, K_PLACE, K_PLACE });
                o.task = r.below(8) ? 0 : o.task;
            }
            if (mode && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_points(Rng & r, Plan & p, int tier) { gen_points_any(r, p, tier, 0); }
    void gen_points_faults(Rng & r, Plan & p, int tier) { gen_points_any(r, p, tier, 1); }

    template <int D>
    void points(const Plan & p)
    {
        start_memory(p);
        constexpr auto OTHER = D == 2 ? geo::POLAR : geo::SPHERICAL;
        using cart_t = geo::coordinates_t<D, geo::CARTESIAN>;
        using curv_t = geo::coordinates_t<D, OTHER>;
        using point_t = geo::point_t<D>;
        struct System {
            std::unique_ptr<geo::coordinate_system_t<cart_t>> cart;
            std::unique_ptr<geo::coordinate_system_t<curv_t>> curv;
            std::map<int, vec<D>> at;    // by point, in the system's own coordinates
        };
        std::vector<System> S;
        std::vector<point_t> pts;
        std::vector<geo::node_t<D>> nodes;
        geo::PointCloud<D> * cloud;
        int lost = 0;    // points that may have been left behind by failed requests
        int before, before_listed = 0;
        {
            Sut in;
            cloud = &geo::point_cloud<D>();
            Host h;
            for (int i = 0; i < 3; ++i) {
                System s;
                Sut in;
                if (i == 1) s.curv.reset(new geo::coordinate_system_t<curv_t>());
                else s.cart.reset(new geo::coordinate_system_t<cart_t>(geo::coordinate_system<cart_t>()));
                S.push_back(std::move(s));
            }
            before = cloud->size();
            for ([[maybe_unused]] const auto & q : cloud->points()) ++before_listed;
        }
        bool factory = false;
        auto mk = [&]<class C>(const vec<D> & x, C *) {
            return [&]<size_t... K>(std::index_sequence<K...>) { return factory ? geo::coordinates<C>({ x[K]... }) : C { x[K]... }; }(std::make_index_sequence<D> {});
        };
        // coordinates are equal if all of them are, and otherwise one comes before the other
        auto compare = [&]<class C>(const vec<D> & x, const vec<D> & y, C * c) {
            C a = mk(x, c), b = mk(y, c);
            bool same = x == y;
            if ((a == b) != same || (a < b) + (b < a) != !same) fail("G01/comparison", "coordinates are compared wrongly");
        };
        auto draw = [&](const Op & op, const System & s) {
            vec<D> x;
            Rng r((u64) (op.c * 65536 + op.d));
            for (size_t k = 0; k < D; ++k) x[k] = (double) r.range(1, 1000) / 64;
            // cartesian coordinates can be negative
            if (s.cart)
                for (size_t k = 0; k < D; ++k)
                    if (r.below(3) == 0) x[k] = -x[k];
            // another point may be at the same place
            if (!s.at.empty() && r.below(4) == 0) {
                x = std::next(s.at.begin(), r.below((i64) s.at.size()))->second;
                probe("same-place");
            }
            return x;
        };
        auto place = [&](System & s, const point_t & q, const vec<D> & x) {
            if (s.cart) s.cart->place(q, mk(x, (cart_t *) nullptr));
            else s.curv->place(q, mk(x, (curv_t *) nullptr));
        };
        auto get = [&](System & s, const point_t & q) { return s.cart ? components(s.cart->coordinates(q)) : components(s.curv->coordinates(q)); };
        auto verify = [&](const char * what) {
            for (auto & s : S) {
                for (auto & [i, x] : s.at)
                    if (get(s, pts[(size_t) i]) != x) fail("G01/coordinates", "after %s: a point does not have the coordinates it was placed with", what);
                // enumeration
                std::map<const void *, vec<D>> seen;
                auto walk = [&](auto & cs) {
                    for (auto & [q, c] : cs)
                        if (!seen.insert({ q.operator->(), components(c) }).second) fail("G01/enumeration", "after %s: a coordinate system lists a point twice", what);
                };
                if (s.cart) walk(*s.cart);
                else walk(*s.curv);
                if (seen.size() != s.at.size()) fail("G01/enumeration", "after %s: a coordinate system lists %zu points, %zu were placed in it", what, seen.size(), s.at.size());
                for (auto & [i, x] : s.at) {
                    auto it = seen.find(pts[(size_t) i].operator->());
                    if (it == seen.end() || it->second != x) fail("G01/enumeration", "after %s: a coordinate system does not list a point with its coordinates", what);
                }
            }
            // the cloud
            std::map<const void *, int> seen;
            int n = 0;
            {
                auto & all = cloud->points();
                for (const auto & q : all) {
                    seen[q.operator->()]++;
                    ++n;
                }
            }
            for (auto & q : pts)
                if (seen[q.operator->()] != 1) fail("G01/cloud", "after %s: the cloud lists a point %d times", what, seen[q.operator->()]);
            int fresh = cloud->size() - before;
            if (fresh < (int) pts.size() || fresh > (int) pts.size() + lost) fail("G01/cloud", "after %s: the cloud counts %d points, %zu were made", what, fresh, pts.size());
            // (a point that nobody holds is counted but not listed)
            if (n < (int) pts.size() + before_listed || n > cloud->size() || (!lost && n != (int) pts.size() + before_listed)) fail("G01/cloud", "after %s: the cloud lists %d points and counts %d", what, n, cloud->size());
            // and the other way to go through it
            int m = 0;
            for (auto it = cloud->begin(); it != cloud->end(); ++it) ++m;
            if (m != n) fail("G01/cloud", "after %s: the cloud lists %d points one way and %d the other", what, n, m);
            std::set<const void *> distinct;
            for (auto & q : pts) distinct.insert(q.operator->());
            if (distinct.size() != pts.size()) fail("G01/distinct", "after %s: two points are one", what);
        };
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            System & s = S[(size_t) (op.task % (i64) S.size())];
            const char * what = "nothing";
            factory = op.a % 2;
            auto request = [&](const char * props, const Op & op, auto && f) {
                Outcome o = act(op, f);
                if (!o.ok) {
                    if (!o.bad_alloc || !op.fk) fail(props, "%s threw: %s", what, o.what.c_str());
                    probe("request-failed");
                    ++lost;
                    verify(what);
                    Op again = op;
                    again.fk = 0;
                    o = act(again, f);
                    if (!o.ok) fail("G01/not-usable", "%s still fails after the fault is over: %s", what, o.what.c_str());
                }
            };
            switch (op.kind) {
            case K_NEW: {
                what = "a new point";
                std::vector<point_t> got;
                request("G01/refused", op, [&] {
                    got.clear();
                    got.reserve(1);
                    got.push_back(cloud->point());
                });
                for (auto & q : got) pts.push_back(q);
                Sut in;
                got = {};
                break;
            }
            case K_NODE: {
                what = "a new node";
                if (!s.cart) break;
                auto x = draw(op, s);
                std::vector<geo::node_t<D>> got;
                request("G01/refused", op, [&] {
                    got.clear();
                    got.reserve(1);
                    got.push_back(geo::node(*s.cart, mk(x, (cart_t *) nullptr)));
                });
                pts.push_back(got[0]->point());
                s.at[(int) pts.size() - 1] = x;
                Sut in;
                nodes.push_back(got[0]);
                got = {};
                break;
            }
            case K_PLACE: {
                what = "placing a point";
                std::vector<int> unplaced;
                for (int i = 0; i < (int) pts.size(); ++i)
                    if (!s.at.count(i)) unplaced.push_back(i);
                if (unplaced.empty()) break;
                int i = unplaced[(size_t) (op.a % (i64) unplaced.size())];
                auto x = draw(op, s);
                for (auto & [j, y] : s.at) {
                    if (s.cart) compare(x, y, (cart_t *) nullptr);
                    else compare(x, y, (curv_t *) nullptr);
                }
                request("G01/refused", op, [&] { place(s, pts[(size_t) i], x); });
                s.at[i] = x;
                break;
            }
            case K_REPLACE: {
                what = "placing a point again";
                if (s.at.empty()) break;
                auto it = std::next(s.at.begin(), op.a % (i64) s.at.size());
                auto x = op.b % 4 ? draw(op, s) : it->second;
                Op plain = op;
                plain.fk = 0;
                Outcome o = act(plain, [&] { place(s, pts[(size_t) it->first], x); });
                if (o.ok) fail("G01/placed-twice", "a point that has coordinates was placed again");
                probe("placed-again");
                break;
            }
            case K_MID: {
                what = "a midpoint";
                if (s.at.empty()) break;
                auto i = std::next(s.at.begin(), op.a % (i64) s.at.size()), j = std::next(s.at.begin(), op.b % (i64) s.at.size());
                vec<D> m {};
                if (!s.cart) break;
                request("G01/refused", op, [&] { m = components(s.cart->midpoint(pts[(size_t) i->first], pts[(size_t) j->first])); });
                for (size_t k = 0; k < D; ++k)
                    if (std::fabs(m[k] - (i->second[k] + j->second[k]) / 2) > 1e-13) fail("G01/midpoint", "the midpoint of two points is not halfway between them");
                break;
            }
            case K_CHANGE: {
                what = "a change of coordinates";
                if (S.size() > 6) break;
                System n;
                request("G01/refused", op, [&] {
                    if (s.cart) n.curv.reset(new geo::coordinate_system_t<curv_t>(geo::coordinate_system<curv_t>(*s.cart)));
                    else n.cart.reset(new geo::coordinate_system_t<cart_t>(*s.curv));
                });
                size_t listed = 0;
                if (n.cart)
                    for ([[maybe_unused]] auto & e : *n.cart) ++listed;
                else
                    for ([[maybe_unused]] auto & e : *n.curv) ++listed;
                if (listed != s.at.size()) fail("G01/change", "a change of coordinates of %zu points has %zu", s.at.size(), listed);
                for (auto & [i, x] : s.at) {
                    vec<D> y = get(n, pts[(size_t) i]), want {};
                    // compare in cartesian coordinates
                    auto cart = [](const vec<D> & q) {
                        if constexpr (D == 2) return vec<D> { q[0] * std::cos(q[1]), q[0] * std::sin(q[1]) };
                        else return vec<D> { q[0] * std::sin(q[1]) * std::cos(q[2]), q[0] * std::sin(q[1]) * std::sin(q[2]), q[0] * std::cos(q[1]) };
                    };
                    vec<D> a = s.cart ? x : cart(x), b = n.cart ? y : cart(y);
                    for (size_t k = 0; k < D; ++k)
                        if (std::fabs(a[k] - b[k]) > 1e-10) fail("G01/change", "a change of coordinates moves a point");
                    n.at[i] = y;
                    (void) want;
                }
                probe("coordinates-changed");
                S.push_back(std::move(n));
                break;
            }
            case K_UNKNOWN: {
                what = "a look at a point without coordinates";
                std::vector<int> unplaced;
                for (int i = 0; i < (int) pts.size(); ++i)
                    if (!s.at.count(i)) unplaced.push_back(i);
                if (unplaced.empty()) break;
                Op plain = op;
                plain.fk = 0;
                Outcome o = act(plain, [&] { get(s, pts[(size_t) unplaced[(size_t) (op.a % (i64) unplaced.size())]]); });
                if (o.ok) fail("G01/invented", "a point that was never placed has coordinates");
                break;
            }
            case K_DROP: {
                what = "dropping a coordinate system";
                if (S.size() <= 3) break;
                size_t i = 3 + (size_t) (op.a % (i64) (S.size() - 3));
                Sut in;
                S.erase(S.begin() + (long) i);
                break;
            }
            }
            log("%lld s%lld %s: %zu points", (long long) step, (long long) (op.task % 3), what, pts.size());
            if (S[0].at.size() == 129) probe("more-than-128-points");
            state(hcomb(hcomb(pts.size(), S[0].at.size()), hcomb(S[1].at.size(), S.size())));
            if (op.kind != K_LOOK || op.a % 4 == 0) verify(what);
        }
        verify("the end");
        Sut in;
        S.clear();
        nodes.clear();
        pts.clear();
    }
    void run_points(const Plan & p) { p.get("kind") % 2 ? points<3>(p) : points<2>(p); }
    Registrar reg_points("points", gen_points, run_points);
    Registrar reg_points_faults("points_faults", gen_points_faults, run_points);
}
