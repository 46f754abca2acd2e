// Integration over meshes, their boundaries, and meshes embedded in a space of higher dimension. The
// oracle integrates powers of linear forms exactly.
#include "meshes.h"
#include <mito/quadrature.h>

namespace {
    // ------------------------------------------------------------------ integration, Q01
    void gen_integrate(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(8);
        p.cfg["nodes"] = r.range(5, 12);
        p.cfg["cells"] = r.range(1, tier ? 30 : 14);
        p.cfg["grid"] = r.chance(0.3) ? r.range(1, 3) : 0;
        // now and then a large mesh
        if (r.chance(0.02)) p.cfg["grid"] = r.range(4, 12);
        p.cfg["world"] = (i64) (r.next() & 0xffffff);
        i64 n = r.range(1, 5);
        for (i64 i = 0; i < n; ++i) p.ops.push_back(Op { r.below(3), 0, r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) });
    }
    template <int D, int R>
    double power(const vec<D> & x, const vec<D> & a, double b)
    {
        double s = b;
        for (size_t k = 0; k < D; ++k) s += a[k] * x[k];
        double q = 1;
        for (int i = 0; i < R; ++i) q *= s;
        return q;
    }
    // the exact integral of the r-th power of a linear form that takes values l at the vertices
    double exact(const std::vector<double> & l, double volume, int r)
    {
        int n = (int) l.size() - 1;
        // complete homogeneous symmetric polynomial of degree r
        std::vector<double> h((size_t) r + 1, 0.0);
        h[0] = 1;
        for (double x : l)
            for (int k = 1; k <= r; ++k) h[(size_t) k] += x * h[(size_t) k - 1];
        double c = 1;
        for (int k = 1; k <= r; ++k) c *= (double) k / (n + k);
        return volume * c * h[(size_t) r];
    }
    template <int N, int R>
    void integrate(const Plan & p)
    {
        start_memory(p);
        constexpr int D = N;
        using W = World<N, D>;
        using mesh_type = typename W::mesh_type;
        using coord_t = typename W::coord_t;
        Rng world((u64) p.get("world"));
        int g = (int) p.get("grid");
        if (N == 3) g = g > 3 ? 2 + g / 6 : std::min(g, 2);
        if (g > 3) probe("a large mesh");
        i64 step = 0;
        std::vector<top::vertex_t> pool;
        for (auto & op : p.ops) {
            at(step++);
            auto b = g ? grid<N, D>((u64) op.a, g) : blueprint<N, D>((u64) op.a, (int) p.get("nodes", 5), (int) p.get("cells", 1));
            Rng r((u64) op.b ^ 0x51);
            // is this mesh built on the vertices of the earlier ones? are its cells erased in the end?
            auto * from = r.chance(0.5) ? &pool : nullptr;
            bool razed = r.chance(0.5);
            vec<D> a;
            for (auto & q : a) q = (double) r.range(-4, 4) / 4;
            double c0 = (double) r.range(-4, 4) / 2;
            auto f = mito::functions::function([a, c0](const coord_t & x) { return power<D, R>(components(x), a, c0); });
            auto value = [&](const mesh_type & m, const typename W::cs_t & cs) {
                auto manifold = mito::manifolds::manifold(m, cs);
                auto I = mito::quadrature::integrator<mito::quadrature::GAUSS, R>(manifold);
                return (double) I.integrate(f);
            };
            double want = 0, scale = 0, vol = 0;
            double fact = 1;
            for (int k = 2; k <= N; ++k) fact *= k;
            for (auto & v : b.cells) {
                std::vector<vec<D>> x;
                std::vector<double> l;
                double big = 0;
                for (int i : v) {
                    x.push_back(b.x[(size_t) i]);
                    l.push_back(power<D, 1>(x.back(), a, c0));
                    big = std::max(big, std::fabs(l.back()));
                }
                double w = wedge<D>(x)[0] / fact;
                want += exact(l, w, R);
                vol += w;
                scale += std::fabs(w) * (1 + std::pow(big, R));
            }
            double tol = 1e-11 * (scale + 1), got = 0, measured = 0, refined = 0, again = 0, parts = 0, lost = 0, late = 0;
            bool do_refine = b.cells.size() < 60;
            {
                Sut in;
                std::unique_ptr<typename W::cs_t> cs(new typename W::cs_t());
                std::vector<typename W::node_t> nodes;
                scatter(world, (int) world.below(6));
                auto m = W::build(b, *cs, nodes, &world, 0, from);
                got = value(*m, *cs);
                measured = (double) mito::manifolds::manifold(*m, *cs).volume();
                // over the parts of a partition
                mesh_type left, right;
                u64 bits = (u64) op.c * 0x9E3779B97F4A7C15ull;
                size_t i = 0;
                for (auto & c : m->cells()) ((bits >> (i++ % 60)) & 1 ? left : right).insert(std::as_const(c));
                parts = value(left, *cs) + value(right, *cs);
                if (do_refine) {
                    auto fine = msh::tetra(*m, *cs, 1);
                    refined = value(fine, *cs);
                } else
                    refined = got;
                // built another way: other order of cells, cells that came and went, even permutations
                Blueprint<D> s = b;
                {
                    Host h;
                    for (size_t k = 0; k < s.cells.size(); ++k) std::swap(s.cells[k], s.cells[k + (size_t) r.below((i64) (s.cells.size() - k))]);
                    for (auto & v : s.cells)
                        if (N > 1) std::rotate(v.begin(), v.begin() + 1 + (N > 2 ? r.below(2) * 0 : r.below(2)), v.end() - (N > 2 ? 1 : 0));
                }
                std::unique_ptr<typename W::cs_t> cs2(new typename W::cs_t());
                scatter(world, (int) world.below(6));
                auto m2 = W::build(s, *cs2, nodes, &world, 0.3, from);
                again = value(*m2, *cs2);
                // a manifold is as large as its mesh is when it is asked
                auto manifold = mito::manifolds::manifold(*m2, *cs2);
                for (auto & c : m2->cells()) {
                    lost = (double) manifold.volume(c);
                    m2->erase(c);
                    break;
                }
                late = (double) manifold.volume();
                if (razed) {
                    W::raze(m2);
                    W::raze(m);
                }
                m2.reset();
                m.reset();
                nodes.clear();
                Host h;
            }
            did(6);
            log("%lld integral of degree %d over %zu cells: %.17g", (long long) step, R, b.cells.size(), got);
            if (std::fabs(measured - vol) > 1e-11 * (scale + std::fabs(vol))) fail("Q01/volume", "the volume of a manifold of %zu cells is %.17g, the cells' volumes sum to %.17g", b.cells.size(), measured, vol);
            if (std::fabs(late + lost - vol) > 1e-11 * (scale + std::fabs(vol))) fail("Q01/volume-after-erasure", "after a cell of measure %.17g was erased the manifold measures %.17g, before it was %.17g", lost, late, vol);
            if (std::fabs(got - want) > tol) fail("Q01/exact", "the integral of a polynomial of degree %d with a rule of that degree over %zu cells is %.17g, exactly it is %.17g", R, b.cells.size(), got, want);
            if (std::fabs(parts - got) > tol) fail("Q01/additive", "the integrals over two parts sum to %.17g, over the whole mesh it is %.17g", parts, got);
            if (std::fabs(refined - got) > tol) fail("Q01/refined", "the integral over the refined mesh is %.17g, over the mesh it was %.17g", refined, got);
            if (std::fabs(again - got) > tol) fail("Q01/history", "the integral over the same mesh built another way is %.17g instead of %.17g", again, got);
            state(hcomb(digest(b.cells, b.x), (u64) (N * 10 + R)));
        }
    }
    void run_integrate(const Plan & p)
    {
        switch (p.get("kind") % 8) {
        case 0: return integrate<1, 1>(p);
        case 1: return integrate<1, 2>(p);
        case 2: return integrate<2, 1>(p);
        case 3: return integrate<2, 2>(p);
        case 4: return integrate<2, 3>(p);
        case 5: return integrate<2, 4>(p);
        case 6: return integrate<3, 1>(p);
        default: return integrate<3, 2>(p);
        }
    }
    Registrar reg_integrate("integrate", gen_integrate, run_integrate);

    // ------------------------------------------------------------------ boundaries and embedded meshes, Q02
    enum { K_FLUX, K_EMBEDDED };
    void gen_flux_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(12);
        p.cfg["nodes"] = r.range(5, 10);
        p.cfg["cells"] = r.range(1, tier ? 24 : 12);
        p.cfg["grid"] = r.chance(0.5) ? r.range(1, 3) : 0;
        // now and then a large mesh
        if (r.chance(0.02)) p.cfg["grid"] = r.range(4, 12);
        p.cfg["holes"] = r.chance(0.5) ? r.range(1, 70) : 0;
        p.cfg["world"] = (i64) (r.next() & 0xffffff);
        i64 n = r.range(1, 4);
        double rate = r.pick({ 20, 60 }) / 100.0;
        i64 span = r.pick({ 10, 60, 300 });
        for (i64 i = 0; i < n; ++i) {
            Op o { r.below(3), 0, r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (mode && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_flux(Rng & r, Plan & p, int tier) { gen_flux_any(r, p, tier, 0); }
    void gen_flux_faults(Rng & r, Plan & p, int tier) { gen_flux_any(r, p, tier, 1); }

    // do it, under the fault of {op} if it has one, and again without it if that failed
    template <class F>
    void attempt(const Op & op, const char * what, F && f)
    {
        Outcome o = act(op, f);
        if (o.ok) return;
        if (!o.bad_alloc || !op.fk) fail("Q02,Q01/refused", "%s threw: %s", what, o.bad_alloc ? "bad_alloc" : o.what.c_str());
        probe("request-failed");
        Op again = op;
        again.fk = 0;
        o = act(again, f);
        if (!o.ok) fail("Q02,Q01/not-usable", "%s still fails after the fault is over: %s", what, o.what.c_str());
    }
    template <int D>
    vec<D> normal_of(const std::vector<vec<D>> & x)
    {
        vec<D> n;
        if constexpr (D == 2) n = { x[1][1] - x[0][1], -(x[1][0] - x[0][0]) };
        else {
            auto w = wedge<3>(x);    // 01 02 12
            n = { w[2], -w[1], w[0] };
        }
        double l = 0;
        for (double q : n) l += q * q;
        l = std::sqrt(l);
        if (l > 0)
            for (auto & q : n) q /= l;
        return n;
    }
    template <int D>
    auto vector_of(const vec<D> & v)
    {
        return [&]<size_t... K>(std::index_sequence<K...>) { return mito::tensor::vector_t<D> { v[K]... }; }(std::make_index_sequence<D> {});
    }
    template <int D>
    double dot(const vec<D> & a, const vec<D> & b)
    {
        double s = 0;
        for (size_t k = 0; k < D; ++k) s += a[k] * b[k];
        return s;
    }

    // the flux of (a x + b)^R c through the boundary of a mesh, cell by cell
    template <int N, int R>
    void flux(const Plan & p)
    {
        start_memory(p);
        constexpr int D = N;
        using W = World<N, D>;
        using coord_t = typename W::coord_t;
        Rng world((u64) p.get("world"));
        int g = (int) p.get("grid");
        if (N == 3) g = g > 3 ? 2 + g / 6 : std::min(g, 2);
        if (g > 3) probe("a large mesh");
        i64 step = 0;
        std::vector<top::vertex_t> pool;
        double fact = N == 3 ? 6 : 2;
        for (auto & op : p.ops) {
            at(step++);
            auto b = g ? grid<N, D>((u64) op.a, g) : blueprint<N, D>((u64) op.a, (int) p.get("nodes", 5), (int) p.get("cells", 1));
            Rng r((u64) op.b ^ 0x52);
            auto * from = r.chance(0.5) ? &pool : nullptr;
            if (g && r.chance(0.7))    // distort it
                for (auto & x : b.x)
                    for (auto & q : x) q += (double) r.range(-6, 6) / 4;
            std::vector<std::vector<int>> holes;
            if (i64 h = p.get("holes"))
                std::erase_if(b.cells, [&](auto & v) {
                    if (!r.chance((double) h / 100)) return false;
                    holes.push_back(v);
                    return true;
                });
            vec<D> a, c;
            for (auto & q : a) q = (double) r.range(-4, 4) / 4;
            for (auto & q : c) q = (double) r.range(-4, 4) / 2;
            double c0 = (double) r.range(-4, 4) / 2;

            // the model: facets that have no partner, oriented outwards for cells of positive measure
            std::map<std::vector<int>, std::array<int, 2>> count;
            std::vector<std::vector<int>> facets;
            double divergence = 0, scale = 1;
            for (auto & v : b.cells) {
                std::vector<vec<D>> x;
                std::vector<double> l;
                for (int i : v) x.push_back(b.x[(size_t) i]), l.push_back(power<N, 1>(x.back(), a, c0));
                double w = wedge<D>(x)[0] / fact, big = 1;
                for (double q : l) big = std::max(big, std::fabs(q));
                divergence += R * dot<N>(a, c) * exact(l, w, R - 1);
                scale += 20 * std::fabs(w) * std::pow(big, R);
                for (size_t i = 0; i < v.size(); ++i) {
                    auto f = v;
                    f.erase(f.begin() + (long) i);
                    if (i % 2) std::swap(f[0], f[1]);
                    count[sorted(f)][parity(f) > 0 ? 0 : 1]++;
                    facets.push_back(f);
                }
            }
            double want = 0;
            bool manifold = true;
            size_t nb = 0;
            for (auto & f : facets) {
                auto & n = count[sorted(f)];
                manifold = manifold && n[0] <= 1 && n[1] <= 1;
                if (n[0] && n[1]) continue;
                ++nb;
                std::vector<vec<D>> x;
                std::vector<double> l;
                for (int i : f) x.push_back(b.x[(size_t) i]), l.push_back(power<N, 1>(x.back(), a, c0));
                auto w = wedge<D>(x);
                vec<D> area;
                if constexpr (D == 2) area = { w[1], -w[0] };
                else area = { w[2] / 2, -w[1] / 2, w[0] / 2 };
                double big = 1;
                for (double q : l) big = std::max(big, std::fabs(q));
                want += exact(l, dot<N>(area, c), R);
                scale += 10 * std::sqrt(dot<N>(area, area)) * std::pow(big, R);
            }
            double got = 0, inside = 0, surface = 0, wanted = 0;
            bool touched = false;
            attempt(op, "integrating over a boundary", [&] {
                got = inside = surface = wanted = 0;
                touched = false;
                std::unique_ptr<typename W::cs_t> cs(new typename W::cs_t());
                std::vector<typename W::node_t> nodes;
                Rng w2(0);
                {
                    Host h;
                    w2 = world;
                }
                scatter(w2, (int) w2.below(6));
                auto m = W::build(b, *cs, nodes, &w2, 0.3, from);
                for (auto & v : holes) {    // these come and go
                    auto & cell = m->insert(W::tuple(nodes, v));
                    m->erase(cell);
                }
                auto boundary = msh::boundary(*m);
                using facet_mesh = decltype(boundary);
                for (auto & cell : boundary.cells()) {
                    std::vector<vec<D>> x;
                    {
                        Host h;
                        for (auto & n : cell.nodes()) x.push_back(components(cs->coordinates(n->point())));
                    }
                    auto n = normal_of<D>(x);
                    // the composition of a tetrahedron has its faces the other way round
                    vec<D> out = n;
                    if (D == 3)
                        for (auto & q : out) q = -q;
                    auto normal = mito::functions::function([n](const coord_t &) { return vector_of<N>(n); });
                    auto f = mito::functions::function([a, c, c0, out](const coord_t & x) { return power<N, R>(components(x), a, c0) * dot<N>(c, out); });
                    facet_mesh one;
                    one.insert(std::as_const(cell));
                    auto manifold = mito::manifolds::submanifold(one, *cs, normal);
                    auto I = mito::quadrature::integrator<mito::quadrature::GAUSS, R>(manifold);
                    got += (double) I.integrate(f);
                    surface += (double) manifold.volume();
                    Host h;
                    auto w = wedge<D>(x);
                    double s = 0;
                    for (double q : w) s += q * q;
                    wanted += std::sqrt(s) / (D == 3 ? 2 : 1);
                }
                if ((size_t) boundary.nCells() != nb) touched = true;
                auto body = mito::manifolds::manifold(*m, *cs);
                constexpr int Q = R > 2 ? 2 : R > 1 ? R - 1 : 1;
                auto I = mito::quadrature::integrator<mito::quadrature::GAUSS, Q>(body);
                double ac = R * dot<N>(a, c);
                auto div = mito::functions::function([a, c0, ac](const coord_t & x) { return ac * power<N, R - 1>(components(x), a, c0); });
                inside = (double) I.integrate(div);
            });
            world.next();
            did(6);
            double tol = 1e-11 * scale;
            log("%lld flux of degree %d: %zu cells, %zu on the boundary: %.17g", (long long) step, R, b.cells.size(), nb, got);
            if (touched) fail("Q02,M02/boundary-cells", "the boundary of %zu cells does not have %zu cells", b.cells.size(), nb);
            if (std::fabs(surface - wanted) > tol) fail("Q02/volume", "the cells of a boundary measure %.17g, together they are %.17g", surface, wanted);
            if (std::fabs(got - want) > tol) fail("Q02,M02/flux", "the flux through the boundary of %zu cells is %.17g instead of %.17g", b.cells.size(), got, want);
            if (std::fabs(inside - divergence) > tol) fail("Q02,Q01/divergence", "the integral of the divergence over %zu cells is %.17g instead of %.17g", b.cells.size(), inside, divergence);
            if (manifold) {
                probe("manifold-mesh");
                if (nb && b.cells.size() > 1) probe("flux-through-a-boundary");
                if (std::fabs(inside - got) > tol) fail("Q02/theorem", "the flux through the boundary is %.17g, the integral of the divergence %.17g", got, inside);
            }
            state(hcomb(hcomb(digest(b.cells, b.x), nb), (u64) (N * 10 + R)));
        }
    }

    // an N-dimensional mesh laid out flat in a space of higher dimension
    template <int N, int D, int R>
    void embedded(const Plan & p)
    {
        start_memory(p);
        using W = World<N, D>;
        using mesh_type = typename W::mesh_type;
        using coord_t = typename W::coord_t;
        Rng world((u64) p.get("world"));
        int g = (int) p.get("grid");
        if (g > 3) probe("a large mesh");
        i64 step = 0;
        std::vector<top::vertex_t> pool;
        for (auto & op : p.ops) {
            at(step++);
            auto flat = g ? grid<N, N>((u64) op.a, g) : blueprint<N, N>((u64) op.a, (int) p.get("nodes", 5), (int) p.get("cells", 1));
            Rng r((u64) op.b ^ 0x53);
            auto * from = r.chance(0.5) ? &pool : nullptr;
            // its axes and origin
            std::vector<vec<D>> axis((size_t) N);
            vec<D> origin;
            for (auto & q : origin) q = (double) r.range(-8, 8) / 2;
            std::vector<vec<D>> corner;
            std::vector<double> w;
            double measure = 0;
            do {
                corner = { vec<D> {} };
                for (auto & e : axis) {
                    for (auto & q : e) q = (double) r.range(-4, 4) / 4;
                    corner.push_back(e);
                }
                w = wedge<D>(corner);
                measure = 0;
                for (double q : w) measure += q * q;
                measure = std::sqrt(measure);
            } while (measure < 0.2);
            Blueprint<D> b;
            b.cells = flat.cells;
            for (auto & x : flat.x) {
                auto y = origin;
                for (size_t k = 0; k < N; ++k)
                    for (size_t d = 0; d < D; ++d) y[d] += x[k] * axis[k][d];
                b.x.push_back(y);
            }
            // unit normals such that they and the axes are positively oriented
            std::vector<vec<D>> normals;
            if constexpr (D - N == 1) normals.push_back(normal_of<D>(corner));
            else {
                vec<3> t = axis[0], h {};
                h[std::fabs(t[0]) < std::fabs(t[1]) ? 0 : 1] = 1;
                auto n1 = normal_of<3>({ vec<3> {}, t, h });
                auto n2 = normal_of<3>({ vec<3> {}, t, n1 });
                // n1, n2, t: det = (n1 x n2) t > 0 ?
                double det = 0;
                for (int k = 0; k < 3; ++k) det += (n1[(k + 1) % 3] * n2[(k + 2) % 3] - n1[(k + 2) % 3] * n2[(k + 1) % 3]) * t[k];
                if (det < 0) std::swap(n1, n2);
                normals = { n1, n2 };
            }
            vec<D> a;
            for (auto & q : a) q = (double) r.range(-4, 4) / 4;
            double c0 = (double) r.range(-4, 4) / 2;
            double want = 0, vol = 0, scale = 1, fact = N == 2 ? 2 : 1;
            for (size_t k = 0; k < b.cells.size(); ++k) {
                std::vector<vec<N>> x;
                std::vector<double> l;
                double big = 1;
                for (int i : b.cells[k]) {
                    x.push_back(flat.x[(size_t) i]);
                    l.push_back(power<D, 1>(b.x[(size_t) i], a, c0));
                    big = std::max(big, std::fabs(l.back()));
                }
                double v = wedge<N>(x)[0] / fact * measure;
                want += exact(l, v, R);
                vol += v;
                scale += 20 * std::fabs(v) * std::pow(big, R);
            }
            auto f = mito::functions::function([a, c0](const coord_t & x) { return power<D, R>(components(x), a, c0); });
            auto n0 = normals[0];
            auto n1 = normals.back();
            auto first = mito::functions::function([n0](const coord_t &) { return vector_of<D>(n0); });
            auto second = mito::functions::function([n1](const coord_t &) { return vector_of<D>(n1); });
            double got = 0, measured = 0, parts = 0;
            auto value = [&](const mesh_type & m, const typename W::cs_t & cs, double * volume) {
                auto over = [&](const auto & manifold) {
                    auto I = mito::quadrature::integrator<mito::quadrature::GAUSS, R>(manifold);
                    if (volume) *volume = (double) manifold.volume();
                    return (double) I.integrate(f);
                };
                if constexpr (D - N == 1) return over(mito::manifolds::submanifold(m, cs, first));
                else return over(mito::manifolds::submanifold(m, cs, first, second));
            };
            attempt(op, "integrating over an embedded mesh", [&] {
                std::unique_ptr<typename W::cs_t> cs(new typename W::cs_t());
                std::vector<typename W::node_t> nodes;
                Rng w2(0);
                {
                    Host h;
                    w2 = world;
                }
                scatter(w2, (int) w2.below(6));
                auto m = W::build(b, *cs, nodes, &w2, 0.3, from);
                got = value(*m, *cs, &measured);
                mesh_type left, right;
                u64 bits = (u64) op.c * 0x9E3779B97F4A7C15ull;
                size_t i = 0;
                for (auto & c : m->cells()) ((bits >> (i++ % 60)) & 1 ? left : right).insert(std::as_const(c));
                parts = value(left, *cs, nullptr) + value(right, *cs, nullptr);
            });
            world.next();
            did(4);
            double tol = 1e-11 * scale;
            log("%lld integral of degree %d over %zu embedded cells: %.17g", (long long) step, R, b.cells.size(), got);
            if (std::fabs(measured - vol) > tol) fail("Q02/volume", "a flat mesh of %zu cells measures %.17g instead of %.17g", b.cells.size(), measured, vol);
            if (std::fabs(got - want) > tol) fail("Q02/embedded", "the integral over a flat mesh of %zu cells is %.17g instead of %.17g", b.cells.size(), got, want);
            if (std::fabs(parts - got) > tol) fail("Q02/additive", "the integrals over two parts of a flat mesh sum to %.17g, over the whole it is %.17g", parts, got);
            state(hcomb(digest(b.cells, b.x), (u64) (N * 100 + D * 10 + R)));
        }
    }
    void run_flux(const Plan & p)
    {
        switch (p.get("kind") % 12) {
        case 0: case 1: return flux<2, 1>(p);
        case 2: case 3: return flux<2, 2>(p);
        case 4: return flux<3, 1>(p);
        case 5: return flux<3, 2>(p);
        case 6: return flux<3, 3>(p);
        case 7: return embedded<1, 2, 2>(p);
        case 8: return embedded<1, 3, 2>(p);
        case 9: return embedded<2, 3, 1>(p);
        case 10: return embedded<2, 3, 2>(p);
        default: return embedded<2, 3, 4>(p);
        }
    }
    Registrar reg_flux("flux", gen_flux, run_flux);
    Registrar reg_flux_faults("flux_faults", gen_flux_faults, run_flux);
}
