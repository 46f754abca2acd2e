// Meshes in polar and spherical coordinates. The oracle works in cartesian coordinates and integrates
// powers of linear forms exactly.
#include "meshes.h"
#include <mito/quadrature.h>

namespace {
    void gen_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(6);
        p.cfg["nodes"] = r.range(4, 9);
        p.cfg["cells"] = r.range(1, tier ? 16 : 8);
        p.cfg["grid"] = r.chance(0.3) ? r.range(1, 2) : 0;
        // now and then a large mesh
        if (r.chance(0.02)) p.cfg["grid"] = r.range(3, 8);
        p.cfg["world"] = (i64) (r.next() & 0xffffff);
        i64 n = r.range(1, 3);
        double rate = r.pick({ 20, 60 }) / 100.0;
        i64 span = r.pick({ 10, 60, 300 });
        for (i64 i = 0; i < n; ++i) {
            Op o { r.below(3), 0, r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (mode && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_curvi(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 0); }
    void gen_curvi_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 1); }

    template <class F>
    void attempt(const Op & op, const char * what, F && f)
    {
        Outcome o = act(op, f);
        if (o.ok) return;
        if (!o.bad_alloc || !op.fk) fail("Q03/refused", "%s threw: %s", what, o.bad_alloc ? "bad_alloc" : o.what.c_str());
        probe("request-failed");
        Op again = op;
        again.fk = 0;
        o = act(again, f);
        if (!o.ok) fail("Q03/not-usable", "%s still fails after the fault is over: %s", what, o.what.c_str());
    }

    template <int D>
    vec<D> cartesian(const vec<D> & q)
    {
        if constexpr (D == 2) return { q[0] * std::cos(q[1]), q[0] * std::sin(q[1]) };
        else return { q[0] * std::sin(q[1]) * std::cos(q[2]), q[0] * std::sin(q[1]) * std::sin(q[2]), q[0] * std::cos(q[1]) };
    }
    template <int D>
    vec<D> curvilinear(const vec<D> & x)
    {
        double h = std::hypot(x[0], x[1]);
        if constexpr (D == 2) return { h, std::atan2(x[1], x[0]) };
        else return { std::hypot(h, x[2]), std::atan2(h, x[2]), std::atan2(x[1], x[0]) };
    }
    // the components of {v} along the unit vectors of the coordinate lines at {q}
    template <int D>
    vec<D> physical(const vec<D> & v, const vec<D> & q)
    {
        if constexpr (D == 2) {
            double c = std::cos(q[1]), s = std::sin(q[1]);
            return { c * v[0] + s * v[1], -s * v[0] + c * v[1] };
        } else {
            double ct = std::cos(q[1]), st = std::sin(q[1]), cp = std::cos(q[2]), sp = std::sin(q[2]);
            return { st * cp * v[0] + st * sp * v[1] + ct * v[2], ct * cp * v[0] + ct * sp * v[1] - st * v[2], -sp * v[0] + cp * v[1] };
        }
    }
    template <int D>
    double away(const vec<D> & x)
    {
        return std::hypot(x[0], x[1]);
    }
    template <int D>
    double gap(const vec<D> & a, const vec<D> & b)
    {
        double s = 0;
        for (size_t k = 0; k < D; ++k) s += (a[k] - b[k]) * (a[k] - b[k]);
        return std::sqrt(s);
    }
    template <int D, int R>
    double power(const vec<D> & x, const vec<D> & a, double b)
    {
        double s = b;
        for (size_t k = 0; k < D; ++k) s += a[k] * x[k];
        double q = 1;
        for (int i = 0; i < R; ++i) q *= s;
        return q;
    }
    double exact(const std::vector<double> & l, double volume, int r)
    {
        int n = (int) l.size() - 1;
        std::vector<double> h((size_t) r + 1, 0.0);
        h[0] = 1;
        for (double x : l)
            for (int k = 1; k <= r; ++k) h[(size_t) k] += x * h[(size_t) k - 1];
        double c = 1;
        for (int k = 1; k <= r; ++k) c *= (double) k / (n + k);
        return volume * c * h[(size_t) r];
    }

    // an N-dimensional mesh in the plane or in space, in cartesian and in curvilinear coordinates
    template <int N, int D, int R>
    void curvi(const Plan & p)
    {
        start_memory(p);
        using W = World<N, D>;
        using cart_t = typename W::coord_t;
        using curv_t = geo::coordinates_t<D, D == 2 ? geo::POLAR : geo::SPHERICAL>;
        using ps_t = geo::coordinate_system_t<curv_t>;
        using cs_t = typename W::cs_t;
        Rng world((u64) p.get("world"));
        int g = (int) p.get("grid");
        if (N == 3) g = g > 2 ? 2 + g / 8 : std::min(g, 1);
        if (g > 3) probe("a large mesh");
        i64 step = 0;
        double fact = N == 3 ? 6 : N == 2 ? 2 : 1;
        constexpr int children = 1 << N;
        for (auto & op : p.ops) {
            at(step++);
            auto b = g ? grid<N, D>((u64) op.a, g) : blueprint<N, D>((u64) op.a, (int) p.get("nodes", 5), (int) p.get("cells", 1));
            Rng r((u64) op.b ^ 0x57);
            // somewhere all its points, and those half-way between them, are away from the poles
            for (bool good = false; !good;) {
                vec<D> t;
                for (auto & q : t) q = (double) r.range(-60, 60) / 8 + 0.03;
                auto x = b.x;
                good = true;
                for (auto & y : x)
                    for (size_t k = 0; k < D; ++k) y[k] += t[k] + (g ? (double) r.range(-6, 6) / 8 : 0);
                for (auto & y : x)
                    for (auto & z : x) {
                        vec<D> m;
                        for (size_t k = 0; k < D; ++k) m[k] = (y[k] + z[k]) / 2;
                        good = good && away<D>(m) > 0.1;
                    }
                if (good) b.x = x;
            }
            // a surface has no normal where it is degenerate
            if (N < D)
                std::erase_if(b.cells, [&](auto & v) {
                    std::vector<vec<D>> x;
                    for (int i : v) x.push_back(b.x[(size_t) i]);
                    double s = 0;
                    for (double q : wedge<D>(x)) s += q * q;
                    return s < 0.01;
                });
            if (b.cells.empty()) continue;
            vec<D> a;
            for (auto & q : a) q = (double) r.range(-4, 4) / 4;
            double c0 = (double) r.range(-4, 4) / 2;
            bool direct = r.chance(0.5);    // are the points given in curvilinear coordinates?
            std::vector<double> volumes;
            double want = 0, vol = 0, scale = 1;
            for (auto & v : b.cells) {
                std::vector<vec<D>> x;
                std::vector<double> l;
                double big = 1;
                for (int i : v) {
                    x.push_back(b.x[(size_t) i]);
                    l.push_back(power<D, 1>(x.back(), a, c0));
                    big = std::max(big, std::fabs(l.back()));
                }
                auto w = wedge<D>(x);
                double s = 0;
                if (N == D) s = w[0] / fact;
                else {
                    for (double q : w) s += q * q;
                    s = std::sqrt(s) / fact;
                }
                volumes.push_back(s);
                want += exact(l, s, R);
                vol += s;
                scale += 100 * (std::fabs(s) + 1) * std::pow(big, R);
            }
            double tol = 1e-11 * scale;
            double got = 0, measured = 0, refined = 0, fine_volume = 0, back = 0, lone = 0;
            double worst_cell = 0, worst_center = 0, worst_point = 0, worst_distance = 0, worst_child = 0, worst_middle = 0, worst_corner = 0;
            size_t n_fine = 0;
            auto pack = [](const vec<D> & x, auto * t) {
                using T = std::remove_pointer_t<decltype(t)>;
                return [&]<size_t... K>(std::index_sequence<K...>) { return T { x[K]... }; }(std::make_index_sequence<D> {});
            };
            auto worse = [](double & w, double x) { w = x <= w ? w : x; };    // (not a number is worse)
            auto f = mito::functions::function([a, c0](const curv_t & x) { return power<D, R>(cartesian<D>(components(x)), a, c0); });
            // over the cells of {m}: one by one, with its normal, if it is a surface
            auto over = [&](auto & m, auto & cs, auto && visit) {
                if constexpr (N == D) visit(mito::manifolds::manifold(m, cs), 0);
                else {
                    int i = 0;
                    for (auto & cell : m.cells()) {
                        std::vector<vec<D>> x;
                        vec<D> n;
                        {
                            Host h;
                            for (auto & q : cell.nodes()) {
                                auto y = components(cs.coordinates(q->point()));
                                x.push_back(std::is_same_v<std::remove_cvref_t<decltype(cs)>, ps_t> ? cartesian<D>(y) : y);
                            }
                            if constexpr (D == 2) n = { x[1][1] - x[0][1], x[0][0] - x[1][0] };
                            else {
                                auto w = wedge<3>(x);
                                n = { w[2], -w[1], w[0] };
                            }
                            double s = gap<D>(n, {});
                            for (auto & q : n) q /= s;
                        }
                        typename W::mesh_type one;
                        one.insert(std::as_const(cell));
                        using C = typename std::remove_cvref_t<decltype(cs)>::coordinates_type;
                        auto normal = mito::functions::function([n](const C & q) {
                            auto v = n;
                            if constexpr (std::is_same_v<C, curv_t>) v = physical<D>(n, components(q));
                            return [&]<size_t... K>(std::index_sequence<K...>) { return mito::tensor::vector_t<D> { v[K]... }; }(std::make_index_sequence<D> {});
                        });
                        visit(mito::manifolds::submanifold(one, cs, normal), i++);
                    }
                }
            };
            auto integral = [&](auto & m, auto & cs) {
                double s = 0;
                over(m, cs, [&](const auto & manifold, int) {
                    auto I = mito::quadrature::integrator<mito::quadrature::GAUSS, R>(manifold);
                    s += (double) I.integrate(f);
                });
                return s;
            };
            auto measure = [&](auto & m, auto & cs) {
                double s = 0;
                over(m, cs, [&](const auto & manifold, int) { s += (double) manifold.volume(); });
                return s;
            };
            attempt(op, "computing in curvilinear coordinates", [&] {
                got = measured = refined = fine_volume = back = lone = 0;
                worst_cell = worst_center = worst_point = worst_distance = worst_child = worst_middle = worst_corner = 0;
                std::vector<typename W::node_t> nodes;
                std::unique_ptr<cs_t> cs(new cs_t());
                Rng w2(0);
                {
                    Host h;
                    w2 = world;
                }
                scatter(w2, (int) w2.below(6));
                auto m = W::build(b, *cs, nodes, &w2, 0.3);
                // its points in curvilinear coordinates, some the other way round the circle
                std::unique_ptr<ps_t> ps;
                if (!direct) ps.reset(new ps_t(*cs));
                else {
                    ps.reset(new ps_t());
                    for (size_t i = 0; i < nodes.size(); ++i) {
                        auto q = curvilinear<D>(b.x[i]);
                        q[D - 1] += (double) (w2.below(3) - 1) * 2 * M_PI;
                        ps->place(nodes[i]->point(), pack(q, (curv_t *) nullptr));
                    }
                }
                for (size_t i = 0; i < nodes.size(); ++i) worse(worst_point, gap<D>(cartesian<D>(components(ps->coordinates(nodes[i]->point()))), b.x[i]));
                for (size_t i = 0; i < nodes.size(); ++i) {
                    size_t j = (size_t) w2.below((i64) nodes.size());
                    worse(worst_distance, std::fabs((double) geo::distance(nodes[i]->point(), nodes[j]->point(), *ps) - gap<D>(b.x[i], b.x[j])));
                    vec<D> half;
                    for (size_t k = 0; k < D; ++k) half[k] = (b.x[i][k] + b.x[j][k]) / 2;
                    worse(worst_middle, gap<D>(cartesian<D>(components(ps->midpoint(nodes[i]->point(), nodes[j]->point()))), half));
                }
                // cell by cell
                for (auto & cell : m->cells()) {
                    vec<D> center {};
                    std::vector<vec<D>> x;
                    {
                        Host h;
                        for (auto & n : cell.nodes()) x.push_back(components(cs->coordinates(n->point())));
                        for (auto & y : x)
                            for (size_t k = 0; k < D; ++k) center[k] += y[k] / (N + 1);
                    }
                    worse(worst_center, gap<D>(cartesian<D>(components(geo::barycenter(cell, *ps))), center));
                    auto phi = cell.parametrization(*ps);
                    for (int i = 0; i <= N; ++i) {
                        mito::tensor::vector_t<N> e {};
                        if (i < N) e[i] = 1;
                        worse(worst_corner, gap<D>(cartesian<D>(components(curv_t(phi(geo::coordinates_t<N, geo::CARTESIAN>(e))))), x[(size_t) i]));
                    }
                }
                if constexpr (N == D) {
                    auto here = mito::manifolds::manifold(*m, *cs);
                    auto there = mito::manifolds::manifold(*m, *ps);
                    for (auto & cell : m->cells()) worse(worst_cell, std::fabs((double) here.volume(cell) - (double) there.volume(cell)));
                }
                measured = measure(*m, *ps);
                got = integral(*m, *ps);
                // refined in curvilinear coordinates
                auto fine = msh::tetra(*m, *ps, 1);
                n_fine = (size_t) fine.nCells();
                fine_volume = measure(fine, *ps);
                refined = integral(fine, *ps);
                {
                    std::vector<double> have, must;
                    over(fine, *ps, [&](const auto & manifold, int) {
                        for (auto & cell : manifold.mesh().cells()) {
                            double v = (double) manifold.volume(cell);
                            Host h;
                            have.push_back(v);
                        }
                    });
                    Host h;
                    for (double v : volumes)
                        for (int i = 0; i < children; ++i) must.push_back(v / children);
                    std::sort(have.begin(), have.end());
                    std::sort(must.begin(), must.end());
                    if (have.size() == must.size())
                        for (size_t i = 0; i < have.size(); ++i) worse(worst_child, std::fabs(have[i] - must[i]));
                    have = {};
                    must = {};
                }
                // and back, with the points that came with the refinement
                cs_t again(*ps);
                back = measure(fine, again);
                for (size_t i = 0; i < nodes.size(); ++i) worse(worst_point, gap<D>(components(again.coordinates(nodes[i]->point())), b.x[i]));
                // after the mesh lost a cell
                for (auto & cell : m->cells()) {
                    m->erase(cell);
                    break;
                }
                lone = measure(*m, *ps);
            });
            world.next();
            did(8);
            log("%lld integral of degree %d over %zu cells: %.17g, volume %.17g", (long long) step, R, b.cells.size(), got, measured);
            auto bad = [](double w, double t) { return !(w <= t); };
            if (bad(worst_point, 1e-11)) fail("Q03/points", "a point of the mesh is off by %.17g in other coordinates", worst_point);
            if (bad(worst_distance, 1e-11)) fail("Q03/distance", "the distance of two points is off by %.17g in curvilinear coordinates", worst_distance);
            if (bad(worst_middle, 1e-11)) fail("Q03/midpoint", "the midpoint of two points is off by %.17g in curvilinear coordinates", worst_middle);
            if (bad(worst_center, 1e-11)) fail("Q03/barycenter", "the barycenter of a cell is off by %.17g in curvilinear coordinates", worst_center);
            if (bad(worst_corner, 1e-11)) fail("Q03,G02/parametrization", "the parametrization of a cell misses a corner by %.17g in curvilinear coordinates", worst_corner);
            if (bad(worst_cell, tol)) fail("Q03/cell-volume", "the measure of a cell differs by %.17g in curvilinear coordinates", worst_cell);
            if (bad(std::fabs(measured - vol), tol)) fail("Q03/volume", "a mesh of %zu cells measures %.17g in curvilinear coordinates instead of %.17g", b.cells.size(), measured, vol);
            if (bad(std::fabs(got - want), tol)) fail("Q03/integral", "the integral over %zu cells in curvilinear coordinates is %.17g instead of %.17g", b.cells.size(), got, want);
            if (n_fine != b.cells.size() * children) fail("Q03,M04/refined-count", "refining %zu cells in curvilinear coordinates gives %zu", b.cells.size(), n_fine);
            // (the inner children of a tetrahedron are as large as the others)
            if (bad(std::fabs(fine_volume - vol), tol)) fail("Q03,M04/refined-volume", "the refined mesh of %zu cells measures %.17g in curvilinear coordinates instead of %.17g", b.cells.size(), fine_volume, vol);
            if (bad(worst_child, tol)) fail("Q03,M04/refined-parts", "the refinement of a cell in curvilinear coordinates does not have equal parts: one is off by %.17g", worst_child);
            if (bad(std::fabs(refined - want), tol)) fail("Q03/refined-integral", "the integral over the refined mesh in curvilinear coordinates is %.17g instead of %.17g", refined, want);
            if (bad(std::fabs(back - vol), tol)) fail("Q03/back", "the refined mesh, back in cartesian coordinates, measures %.17g instead of %.17g", back, vol);
            double closest = 1e300;
            for (double v : volumes) closest = std::min(closest, std::fabs(vol - v - lone));
            if (bad(closest, tol)) fail("Q03/volume-after-erasure", "after a cell was erased the mesh measures %.17g, it was %.17g", lone, vol);
            if (direct) probe("points-given-in-curvilinear-coordinates");
            else probe("points-converted");
            state(hcomb(digest(b.cells, b.x), (u64) (N * 100 + D * 10 + R)));
        }
    }
    void run_curvi(const Plan & p)
    {
        switch (p.get("kind") % 6) {
        case 0: return curvi<2, 2, 1>(p);
        case 1: return curvi<2, 2, 4>(p);
        case 2: return curvi<3, 3, 2>(p);
        case 3: return curvi<1, 2, 2>(p);
        case 4: return curvi<2, 3, 2>(p);
        default: return curvi<3, 3, 1>(p);
        }
    }
    Registrar reg_curvi("curvi", gen_curvi, run_curvi);
    Registrar reg_curvi_faults("curvi_faults", gen_curvi_faults, run_curvi);
}
