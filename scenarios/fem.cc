// Finite elements end to end: function spaces on meshes, discrete systems assembled and solved again
// and again, norms, and fields. The oracle computes every element integral exactly (polynomials in
// barycentric coordinates) from vertex coordinates and vertex numbers alone.
#include "petsc_seam.h"

#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/fem.h>
#include <mito/matrix_solvers.h>
#include <mito/solvers.h>
#include <mito/constraints.h>
#include <mito/manifolds.h>
#include <mito/discrete.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <set>

using namespace sim;
using namespace seam;
namespace geo = mito::geometry;
namespace msh = mito::mesh;
namespace fem = mito::fem;

namespace {
    // ------------------------------------------------------------------ exact element integrals
    using Exp = std::array<int, 3>;
    struct Poly {    // a polynomial in the barycentric coordinates of a cell
        std::map<Exp, double> t;
        static Poly constant(double c) { return Poly { { { Exp { 0, 0, 0 }, c } } }; }
        static Poly lambda(int i)
        {
            Exp e { 0, 0, 0 };
            e[(size_t) i] = 1;
            return Poly { { { e, 1.0 } } };
        }
        Poly operator+(const Poly & o) const
        {
            Poly r = *this;
            for (auto & [e, c] : o.t) r.t[e] += c;
            return r;
        }
        Poly operator*(const Poly & o) const
        {
            Poly r;
            for (auto & [e, c] : t)
                for (auto & [f, d] : o.t) r.t[{ e[0] + f[0], e[1] + f[1], e[2] + f[2] }] += c * d;
            return r;
        }
        Poly operator*(double a) const
        {
            Poly r = *this;
            for (auto & [e, c] : r.t) c *= a;
            return r;
        }
        Poly d(int i) const
        {
            Poly r;
            for (auto & [e, c] : t)
                if (e[(size_t) i]) {
                    Exp f = e;
                    --f[(size_t) i];
                    r.t[f] += c * e[(size_t) i];
                }
            return r;
        }
        double at(const std::array<double, 3> & l) const
        {
            double s = 0;
            for (auto & [e, c] : t) s += c * std::pow(l[0], e[0]) * std::pow(l[1], e[1]) * std::pow(l[2], e[2]);
            return s;
        }
    };
    using Key = std::pair<int, int>;    // a discretisation node: a vertex (v, v) or the middle of an edge
    using Vec2 = std::array<double, 2>;
    struct Quad {    // c0 + cx x + cy y + cxx x^2 + cxy x y + cyy y^2
        double c[6] = { 0, 0, 0, 0, 0, 0 };
        double at(double x, double y) const { return c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y; }
    };
    Quad draw(u64 seed, int degree, int dim)
    {
        Rng r(seed);
        Quad q;
        for (int i = 0; i < 6; ++i) {
            double v = (double) r.range(-8, 8) / 4;
            int deg = i == 0 ? 0 : i < 3 ? 1 : 2;
            bool y = i == 2 || i > 3;
            if (deg <= degree && !(dim == 1 && y)) q.c[i] = v;
        }
        return q;
    }
    struct Cell {    // one cell of the model
        int dim;
        std::vector<int> v;
        std::vector<Vec2> x;
        double measure;
        std::vector<Vec2> dl;    // gradients of the barycentric coordinates
        Cell(int d, const std::vector<int> & vs, const std::vector<Vec2> & all) : dim(d), v(vs)
        {
            for (int i : v) x.push_back(all[(size_t) i]);
            if (dim == 1) {
                measure = x[1][0] - x[0][0];
                dl = { { -1 / measure, 0 }, { 1 / measure, 0 } };
            } else {
                double D = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0]);
                measure = D / 2;
                for (size_t i = 0; i < 3; ++i) {
                    auto &p = x[(i + 1) % 3], &q = x[(i + 2) % 3];
                    dl.push_back({ (p[1] - q[1]) / D, (q[0] - p[0]) / D });
                }
            }
        }
        // a bound for the size of the terms an integral is summed from
        double bound(const Poly & p) const
        {
            double s = 0;
            for (auto & [e, c] : p.t) s += std::fabs(c);
            return s * measure;
        }
        double integral(const Poly & p) const
        {
            static const double fact[] = { 1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800, 479001600 };
            double s = 0;
            for (auto & [e, c] : p.t) s += c * measure * fact[dim] * fact[e[0]] * fact[e[1]] * fact[e[2]] / fact[e[0] + e[1] + e[2] + dim];
            return s;
        }
        std::array<Poly, 2> gradient(const Poly & p) const
        {
            std::array<Poly, 2> g;
            for (int i = 0; i <= dim; ++i)
                for (size_t k = 0; k < 2; ++k) g[k] = g[k] + p.d(i) * dl[(size_t) i][k];
            return g;
        }
        Poly coordinate(size_t k) const
        {
            Poly p;
            for (int i = 0; i <= dim; ++i) p = p + Poly::lambda(i) * x[(size_t) i][k];
            return p;
        }
        Poly of(const Quad & q) const
        {
            Poly X = coordinate(0), Y = coordinate(1);
            return Poly::constant(q.c[0]) + X * q.c[1] + Y * q.c[2] + X * X * q.c[3] + X * Y * q.c[4] + Y * Y * q.c[5];
        }
        // the discretisation nodes and their shape functions
        std::vector<Key> nodes(int degree) const
        {
            std::vector<Key> k;
            for (int i : v) k.push_back({ i, i });
            if (degree == 2)
                for (size_t i = 0; i < 3; ++i) k.push_back(std::minmax(v[i], v[(i + 1) % 3]));
            return k;
        }
        std::vector<Poly> shapes(int degree) const
        {
            std::vector<Poly> s;
            for (int i = 0; i <= dim; ++i) {
                Poly l = Poly::lambda(i);
                s.push_back(degree == 1 ? l : l * (l * 2 + Poly::constant(-1)));
            }
            if (degree == 2)
                for (int i = 0; i < 3; ++i) s.push_back(Poly::lambda(i) * Poly::lambda((i + 1) % 3) * 4);
            return s;
        }
    };

    // ------------------------------------------------------------------ the kinds of problems
    struct Seg1 {
        static constexpr int dim = 1, degree = 1, EL = 1, EH = 3;
        using cell_t = geo::segment_t<1>;
        using ref_t = geo::reference_segment_t;
        static constexpr int QL = 1, QH = 2;
    };
    struct Tri1 {
        static constexpr int dim = 2, degree = 1, EL = 2, EH = 4;
        using cell_t = geo::triangle_t<2>;
        using ref_t = geo::reference_triangle_t;
        static constexpr int QL = 2, QH = 4;
    };
    struct Tri2 : Tri1 {
        static constexpr int degree = 2;
    };

    enum { K_BUILD, K_SPACE, K_SYSTEM, K_TAG, K_SOLVE, K_SOURCE, K_NORM, K_FIELD, K_STRANGER, K_RESET, K_SOLVER, K_NOISE, K_DROP };
    const char * OPTIONS[] = { "-ksp_type preonly -pc_type lu", "-ksp_type preonly -pc_type cholesky", "-ksp_type cg -pc_type jacobi -ksp_rtol 1e-13 -ksp_max_it 5000",
                               "-ksp_type gmres -pc_type ilu -ksp_rtol 1e-13 -ksp_max_it 5000" };

    struct Problem {
        virtual ~Problem() = default;
        virtual void step(const Op & op) = 0;
        virtual void finish() = 0;
        virtual u64 hash() const = 0;
    };

    template <class T>
    struct P : Problem {
        static constexpr int dim = T::dim, degree = T::degree;
        using coord_t = geo::coordinates_t<dim, geo::CARTESIAN>;
        using cs_t = geo::coordinate_system_t<coord_t>;
        using cell_t = typename T::cell_t;
        using node_t = geo::node_t<dim>;
        using mesh_t = msh::mesh_t<cell_t>;
        using fe_t = fem::isoparametric_simplex_t<degree, cell_t>;
        template <int r>
        using rule = mito::quadrature::quadrature_rule_t<mito::quadrature::GAUSS, typename T::ref_t, r>;
        using QL = rule<T::QL>;
        using QH = rule<T::QH>;
        using manifold_t = decltype(mito::manifolds::manifold(std::declval<const mesh_t &>(), std::declval<const cs_t &>()));
        static auto function_of(const Quad * q)
        {
            return mito::functions::function([q](const coord_t & x) -> mito::tensor::scalar_t {
                if constexpr (dim == 1) return q->at(x[0], 0);
                else return q->at(x[0], x[1]);
            });
        }
        using f_t = decltype(function_of(nullptr));
        static auto domain_of()
        {
            if constexpr (dim == 1) return std::set<node_t>();
            else return msh::mesh_t<geo::segment_t<2>>();
        }
        using domain_t = decltype(domain_of());
        using bc_t = mito::constraints::dirichlet_bc_t<domain_t, f_t>;
        using fs_t = fem::function_space_t<fe_t, bc_t>;
        using wf_t = fem::weakform_t<fe_t>;
        using ls_t = mito::matrix_solvers::petsc::linear_system_t;
        using ksp_t = mito::matrix_solvers::petsc::ksp_t;
        using ds_t = fem::discrete_system_t<fs_t, ls_t>;
        using solver_t = mito::solvers::linear_solver_t<ds_t, ksp_t>;
        using dnode_t = mito::discrete::discretization_node_t;
        template <class Q>
        using gg_t = fem::blocks::grad_grad_block_t<fe_t, Q>;
        template <class Q>
        using mass_t = fem::blocks::mass_block_t<fe_t, Q>;
        template <class Q>
        using src_t = fem::blocks::source_term_block_t<fe_t, Q, f_t>;
        using field_t = fem::fem_field_t<double, fs_t>;

        int me;
        bool prescribed, faulty;
        std::string label;
        // the model
        std::vector<Vec2> x;
        std::vector<Cell> cells;
        std::set<Key> all, fixed;
        std::vector<Key> domain_edges;
        std::map<const void *, int> vertex;    // mesh node -> number
        std::map<const void *, Key> key;       // discretisation node -> what it stands for
        Quad source[2], given;
        int lhs[4] = { 0, 0, 0, 0 }, rhs[2] = { 0, 0 };    // how often each block is in the weak form
        int option = 0;
        int tagged = 0, solved = 0;
        // the real thing, in the order it is built
        std::unique_ptr<cs_t> cs;
        std::vector<node_t> nodes;
        std::unique_ptr<mesh_t> mesh, other;
        std::unique_ptr<domain_t> domain;
        std::unique_ptr<manifold_t> manifold;
        std::unique_ptr<f_t> g;
        std::unique_ptr<bc_t> bc;
        std::unique_ptr<fs_t> fs;
        std::unique_ptr<f_t> f[2];
        gg_t<QL> ggl;
        gg_t<QH> ggh;
        mass_t<QL> ml;
        mass_t<QH> mh;
        std::unique_ptr<src_t<QL>> sl;
        std::unique_ptr<src_t<QH>> sh;
        std::unique_ptr<wf_t> wf;
        std::unique_ptr<ds_t> ds;
        std::unique_ptr<solver_t> solver;
        bool solver_there = false, system_there = false;

        P(int i, const Plan & p) : me(i), prescribed(p.get("prescribed")), faulty(p.get("faulty")), label("problem" + std::to_string(i)) {}

        template <class F>
        Outcome call(const Op & op, F && fn)
        {
            Arm arm(op);
            return act(op, fn);
        }
        // what an operation may do when it meets a fault: report it
        bool verdict(const Outcome & o, i64 fired, const char * what)
        {
            if (o.ok && fired) fail("S02,F03/not-reported", "%s met a failure of the external library and said nothing", what);
            if (o.ok) return true;
            if (o.bad_alloc && o.fired) return false;
            if (fired) return false;
            if (o.bad_alloc) fail("memory/bad-alloc", "%s ran out of memory for no reason", what);
            fail("exception/fem", "%s raised \"%s\"", what, o.what.c_str());
        }

        void drop()
        {
            Op none;
            if (solver && solver_there) call(none, [&] { solver->destroy(); });
            if (ds && system_there) call(none, [&] { ds->linear_system().destroy(); });
            solver_there = system_there = false;
            st().inside = true;
            {
                Sut in;
                solver.reset();
                ds.reset();
                wf.reset();
                sl.reset();
                sh.reset();
            }
            st().inside = false;
            tagged = solved = 0;
        }
        void drop_space()
        {
            drop();
            Sut in;
            fs.reset();
            bc.reset();
            {
                Host h;
                key.clear();
            }
        }
        void drop_all()
        {
            drop_space();
            Sut in;
            manifold.reset();
            g.reset();
            domain.reset();
            mesh.reset();
            other.reset();
            nodes.clear();
            nodes.shrink_to_fit();
            cs.reset();
            Host h;
            cells.clear();
            x.clear();
            all.clear();
            fixed.clear();
            vertex.clear();
        }

        node_t make_node(const Vec2 & p)
        {
            if constexpr (dim == 1) return geo::node(*cs, { p[0] });
            else return geo::node(*cs, { p[0], p[1] });
        }
        cell_t & insert(mesh_t & m, const std::vector<int> & v)
        {
            auto n = [&](size_t i) -> const node_t & { return nodes[(size_t) v[i]]; };
            if constexpr (dim == 1) return m.insert({ n(0), n(1) });
            else return m.insert({ n(0), n(1), n(2) });
        }
        void constrain(const node_t & a, const node_t & b, domain_t & d)
        {
            if constexpr (dim == 1) d.insert(a);
            else d.insert({ a, b });
        }

        // ---------------------------------------------------------- a mesh
        void build(const Op & op)
        {
            drop_all();
            Rng r((u64) op.a * 77 + 5);
            std::vector<std::vector<int>> conn;
            // now and then a mesh with many nodes
            bool large = op.d % 80 == 7;
            if (large) probe("large meshes");
            if (dim == 1) {
                int n = (int) (large ? 70 + op.b % 60 : 1 + op.b % 8);
                double at = 0;
                for (int i = 0; i <= n; ++i) {
                    x.push_back({ at, 0 });
                    at += (double) r.range(1, 8) / 4;
                }
                for (int i = 0; i < n; ++i) conn.push_back({ i, i + 1 });
            } else {
                int big = degree == 2 ? 3 : 4;
                int nx = (int) (1 + op.b % big), ny = (int) (1 + op.b / big % big);
                if (large) nx = degree == 2 ? 5 : 8 + (int) (op.b % 3), ny = degree == 2 ? 5 : 9;
                double cosine = 0.8, sine = 0.6;
                bool turn = r.chance(0.3);
                for (int j = 0; j <= ny; ++j)
                    for (int i = 0; i <= nx; ++i) {
                        double u = i + (double) r.range(-3, 3) / 16, v = j + (double) r.range(-3, 3) / 16;
                        x.push_back(turn ? Vec2 { cosine * u - sine * v, sine * u + cosine * v } : Vec2 { u, v });
                    }
                auto id = [&](int i, int j) { return j * (nx + 1) + i; };
                for (int j = 0; j < ny; ++j)
                    for (int i = 0; i < nx; ++i) {
                        int a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
                        if (r.chance(0.5)) conn.push_back({ a, b, c }), conn.push_back({ a, c, d });
                        else conn.push_back({ a, b, d }), conn.push_back({ b, c, d });
                    }
                for (auto & c : conn) std::rotate(c.begin(), c.begin() + r.below(3), c.end());
            }
            std::vector<char> keep(conn.size(), 1), gone(conn.size(), 0);
            if (op.c % 3 == 1)
                for (auto & k : keep) k = r.chance(0.8);
            if (op.c % 3 == 2)
                for (auto & k : gone) k = r.chance(0.3);    // inserted, then erased
            if (r.chance(0.5))
                for (size_t i = conn.size(); i > 1; --i) std::swap(conn[i - 1], conn[(size_t) r.below((i64) i)]);
            // nodes are created in an order of their own
            std::vector<int> order;
            for (size_t i = 0; i < x.size(); ++i) order.push_back((int) i);
            if (r.chance(0.5))
                for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[(size_t) r.below((i64) i)]);
            std::vector<std::vector<int>> left;
            bool mirrored = r.chance(0.4), forget = r.chance(0.5);
            std::vector<char> flipped(conn.size(), 0);
            for (auto & k : flipped) k = r.chance(0.5);
            if (mirrored) probe("cells riding on footprints of the opposite orientation");
            {
                Sut in;
                cs.reset(new cs_t());
                std::vector<std::unique_ptr<node_t>> tmp(x.size());
                for (int i : order) tmp[(size_t) i].reset(new node_t(make_node(x[(size_t) i])));
                for (auto & t : tmp) nodes.push_back(*t);
                // some of the cells have been there before, the other way around
                if (mirrored) {
                    other.reset(new mesh_t());
                    for (size_t i = 0; i < conn.size(); ++i) {
                        auto v = conn[i];
                        std::swap(v[0], v[1]);
                        if (flipped[i]) insert(*other, v);
                    }
                    if (forget) other.reset();
                }
                mesh.reset(new mesh_t());
                std::vector<cell_t *> made(conn.size(), nullptr);
                for (size_t i = 0; i < conn.size(); ++i)
                    if (keep[i]) made[i] = &insert(*mesh, conn[i]);
                for (size_t i = 0; i < conn.size(); ++i)
                    if (keep[i] && gone[i]) mesh->erase(*made[i]);
                manifold.reset(new manifold_t(mito::manifolds::manifold(*mesh, *cs)));
                g.reset(new f_t(function_of(&given)));
                for (int i = 0; i < 2; ++i)
                    if (!f[i]) f[i].reset(new f_t(function_of(&source[i])));
            }
            for (size_t i = 0; i < nodes.size(); ++i) vertex[nodes[i].operator->()] = (int) i;
            for (size_t i = 0; i < conn.size(); ++i)
                if (keep[i] && !gone[i]) left.push_back(conn[i]);
            for (auto & c : left) cells.emplace_back(dim, c, x);
            for (auto & c : cells)
                for (auto & k : c.nodes(degree)) all.insert(k);
            did();
            log("mesh of %d cells", (int) cells.size());
        }

        // ---------------------------------------------------------- a function space
        std::vector<Key> edges(bool boundary_only) const
        {
            std::map<Key, int> n;
            for (auto & c : cells)
                if (dim == 1)
                    for (int v : c.v) n[{ v, v }]++;
                else
                    for (size_t i = 0; i < 3; ++i) n[std::minmax(c.v[i], c.v[(i + 1) % 3])]++;
            std::vector<Key> e;
            for (auto & [k, m] : n)
                if (!boundary_only || m == 1) e.push_back(k);
            return e;
        }
        void space(const Op & op)
        {
            drop_space();
            if (!mesh) return;
            Rng r((u64) op.a * 131 + 7);
            i64 how = op.b % 5;    // nothing, the whole boundary as mito finds it, all of it by hand, a part of it, any edges
            std::vector<Key> pick;
            if (how) pick = edges(how != 4);
            if (how >= 3) {
                double p = how == 3 ? 0.5 : 0.25;
                std::erase_if(pick, [&](const Key &) { return !r.chance(p); });
            }
            given = draw((u64) op.c, 2, dim);
            if (!prescribed) given = Quad();
            {
                Sut in;
                domain.reset(new domain_t(domain_of()));
                if (how == 1) {
                    if constexpr (dim == 1)
                        for (auto & n : msh::boundary(*mesh)) domain->insert(n);
                    else domain.reset(new domain_t(msh::boundary(*mesh)));
                } else
                    for (auto & [a, b] : pick)
                    {
                        bool flip = r.chance(0.5);
                        constrain(nodes[(size_t) (flip ? b : a)], nodes[(size_t) (flip ? a : b)], *domain);
                    }
                if (op.c & 4) bc.reset(new bc_t(mito::constraints::dirichlet_bc(*domain, *g)));
                else bc.reset(new bc_t(*domain, *g));
            }
            fixed.clear();
            for (auto & [a, b] : pick) {
                fixed.insert({ a, a });
                fixed.insert({ b, b });
                if (degree == 2 && a != b) fixed.insert({ a, b });
            }
            // (a constraint on no node of the mesh has nothing to say)
            auto o = call(op, [&] {
                if (op.b & 4) fs.reset(new fs_t(fem::function_space<fe_t>(*manifold, *bc)));
                else fs.reset(new fs_t(*manifold, *bc));
            });
            if (!verdict(o, st().fired, "building a function space")) {
                fs.reset();
                return;
            }
            structure();
            log("space of %d nodes, %d fixed", (int) all.size(), (int) fixed.size());
        }
        void structure()
        {
            std::map<Key, const void *> node_of;
            std::set<std::vector<int>> left;
            for (auto & c : cells) left.insert(c.v);
            Sut in;
            size_t n = 0;
            std::vector<std::pair<std::vector<const void *>, std::vector<const void *>>> seen;
            {
                for (auto & e : fs->elements()) {
                    std::vector<const void *> vs, ds;
                    for (auto & nd : e.cell().nodes()) vs.push_back(nd.operator->());
                    for (auto & d : e.connectivity()) ds.push_back(d.operator->());
                    seen.push_back({ vs, ds });
                    ++n;
                }
            }
            Host h;
            if (n != cells.size()) fail("F01/elements", "a function space on %d cells has %d elements", (int) cells.size(), (int) n);
            key.clear();
            for (auto & [vs, ds] : seen) {
                std::vector<int> v;
                for (auto p : vs) v.push_back(vertex.count(p) ? vertex[p] : -1);
                for (size_t rot = 0; rot < v.size() && !left.count(v); ++rot) std::rotate(v.begin(), v.begin() + 1, v.end());
                if (!left.erase(v)) fail("F01/elements", "an element sits on a cell that is not in the mesh");
                std::vector<int> w;
                for (auto p : vs) w.push_back(vertex[p]);
                auto ks = Cell(dim, w, x).nodes(degree);
                if (ks.size() != ds.size()) fail("F01/elements", "an element has %d nodes", (int) ds.size());
                for (size_t i = 0; i < ks.size(); ++i) {
                    if (!ds[i]) fail("F01/null", "an element has a null node");
                    auto [a, fresh] = key.insert({ ds[i], ks[i] });
                    if (!fresh && a->second != ks[i]) fail("F01/shared", "one discretisation node stands for (%d %d) and for (%d %d)", a->second.first, a->second.second, ks[i].first, ks[i].second);
                    auto [b, first] = node_of.insert({ ks[i], ds[i] });
                    if (!first && b->second != ds[i]) fail("F01/not-shared", "two elements that share (%d %d) have different nodes there", ks[i].first, ks[i].second);
                }
            }
            std::set<Key> now;
            size_t m = 0;
            {
                Sut in2;
                for (auto & c : fs->constrained_nodes()) {
                    const void * p = c.operator->();
                    Host h2;
                    ++m;
                    if (!key.count(p)) fail("F01/constrained-stranger", "a constrained node is in no element");
                    now.insert(key[p]);
                }
            }
            if (now != fixed || m != fixed.size()) fail("F01/constrained", "%d nodes are constrained instead of %d", (int) m, (int) fixed.size());
            size_t k = 0;
            {
                Sut in2;
                for (auto & [mn, dn] : fs->node_map()) {
                    const void *a = mn.operator->(), *b = dn.operator->();
                    Host h2;
                    ++k;
                    int v = vertex.count(a) ? vertex[a] : -1;
                    if (!key.count(b) || key[b] != Key { v, v }) fail("F01/node-map", "the node map pairs a mesh node with a node that is not there");
                }
            }
            std::set<int> used;
            for (auto & c : cells) used.insert(c.v.begin(), c.v.end());
            if (k != used.size()) fail("F01/node-map", "the node map has %d entries for %d mesh nodes", (int) k, (int) used.size());
            did();
        }
        void check_field_size(const field_t & u)
        {
            Sut in;
            int n = 0;
            for (auto & [nd, v] : u) {
                const void * p = nd.operator->();
                Host h;
                if (!key.count(p)) fail("F01,D01/field", "a field has a node that is in no element");
                ++n;
            }
            Host h;
            if (n != (int) all.size()) fail("F01,D01/field", "a field has %d nodes instead of %d", n, (int) all.size());
        }

        // ---------------------------------------------------------- a discrete system
        static constexpr bool mass_low = 2 * degree <= T::EL;
        void system(const Op & op)
        {
            drop();
            if (!fs) return;
            Rng r((u64) op.a * 17 + 3);
            for (int & k : lhs) k = 0;
            for (int & k : rhs) k = 0;
            // the blocks of the weak form, in the order in which they are added
            std::vector<int> picks;
            int n = (int) (1 + op.b % 4);
            for (int i = 0; i < n; ++i) picks.push_back((int) r.below(6));
            if (op.c % 4) picks.insert(picks.begin() + r.below((i64) picks.size() + 1), (int) r.below(2));    // (mostly with some stiffness)
            for (int & k : picks)
                if (k == 2 && !mass_low) k = 3;
            {
                Sut in;
                // (a source may be an expression, gone once the block is made)
                if (op.a & 2) sl.reset(new src_t<QL>(function_of(&source[0])));
                else sl.reset(new src_t<QL>(*f[0]));
                if (op.a & 4) sh.reset(new src_t<QH>(function_of(&source[1])));
                else sh.reset(new src_t<QH>(*f[1]));
                if (op.a & 8) wf.reset(new wf_t(fem::weakform<fe_t>()));
                else wf.reset(new wf_t());
                for (int k : picks) switch (k) {
                    case 0: wf->add_block(ggl); break;
                    case 1: wf->add_block(ggh); break;
                    case 2: wf->add_block(ml); break;
                    case 3: wf->add_block(mh); break;
                    case 4: wf->add_block(*sl); break;
                    case 5: wf->add_block(*sh); break;
                    }
            }
            for (int k : picks) k < 4 ? ++lhs[k] : ++rhs[k - 4];
            sources(op.d);
            auto o = call(op, [&] {
                if (op.b & 8) ds.reset(new ds_t(fem::discrete_system<ls_t>(label, *fs, *wf)));
                else ds.reset(new ds_t(label, *fs, *wf));
            });
            if (!verdict(o, st().fired, "building a discrete system")) {
                drop();
                return;
            }
            system_there = true;
            if (ds->n_equations() != (int) (all.size() - fixed.size())) fail("F01/count", "%d equations for %d nodes of which %d are constrained", ds->n_equations(), (int) all.size(), (int) fixed.size());
            check_field_size(ds->solution());
            make_solver(op);
            log("system of %d equations", ds->n_equations());
        }
        void sources(i64 seed)
        {
            source[0] = draw((u64) seed, std::min(2, T::EL - degree), dim);
            source[1] = draw((u64) seed + 1, std::min(2, T::EH - degree), dim);
        }
        void make_solver(const Op & op)
        {
            if (!ds || !system_there) return;
            Op none;
            bool again = solver && solver_there;
            if (again) call(none, [&] { solver->destroy(); });
            {
                Sut in;
                solver.reset();
            }
            solver_there = false;
            if (again) {
                // (a solver takes its system along)
                auto o = call(none, [&] { ds->linear_system().create(ds->n_equations()); });
                verdict(o, 0, "creating a linear system again");
            }
            option = (int) (op.d % 4);
            auto o = call(op, [&] {
                if (op.b & 16) solver.reset(new solver_t(mito::solvers::linear_solver<ksp_t>(*ds)));
                else solver.reset(new solver_t(*ds));
            });
            if (!verdict(o, st().fired, "creating a solver")) return;
            solver_there = true;
            auto q = call(none, [&] { solver->set_options(OPTIONS[option]); });
            verdict(q, 0, "setting the options of a solver");
        }

        // ---------------------------------------------------------- the oracle of a solve
        struct System {
            std::vector<Key> free;
            std::map<Key, int> row;
            std::vector<std::vector<double>> A;
            std::vector<double> b, scale;
        };
        System expected() const
        {
            System s;
            for (auto & k : all)
                if (!fixed.count(k)) {
                    s.row[k] = (int) s.free.size();
                    s.free.push_back(k);
                }
            size_t n = s.free.size();
            s.A.assign(n, std::vector<double>(n, 0));
            s.b.assign(n, 0);
            s.scale.assign(n, 0);
            double kg = lhs[0] + lhs[1], km = lhs[2] + lhs[3];
            for (auto & c : cells) {
                auto ks = c.nodes(degree);
                auto sh_ = c.shapes(degree);
                std::vector<std::array<Poly, 2>> gr;
                for (auto & p : sh_) gr.push_back(c.gradient(p));
                Poly src = c.of(source[0]) * rhs[0] + c.of(source[1]) * rhs[1];
                for (size_t a = 0; a < ks.size(); ++a) {
                    auto ra = s.row.find(ks[a]);
                    if (ra == s.row.end()) continue;
                    size_t i = (size_t) ra->second;
                    double bi = c.integral(src * sh_[a]);
                    s.b[i] += bi;
                    s.scale[i] += c.bound(src);
                    for (size_t b = 0; b < ks.size(); ++b) {
                        double v = 0;
                        if (kg) v += kg * c.integral(gr[a][0] * gr[b][0] + gr[a][1] * gr[b][1]);
                        if (km) v += km * c.integral(sh_[a] * sh_[b]);
                        auto rb = s.row.find(ks[b]);
                        if (rb != s.row.end()) s.A[i][(size_t) rb->second] += v;
                        else s.b[i] -= v * value_at(ks[b]);
                    }
                }
            }
            return s;
        }
        Vec2 position(const Key & k) const
        {
            auto &p = x[(size_t) k.first], &q = x[(size_t) k.second];
            return { (p[0] + q[0]) / 2, (p[1] + q[1]) / 2 };
        }
        double value_at(const Key & k) const
        {
            auto p = position(k);
            return given.at(p[0], p[1]);
        }
        // solve, or find out that the matrix is (nearly) singular
        static bool direct(System s, std::vector<double> & u)
        {
            size_t n = s.b.size();
            double big = 0;
            for (auto & r : s.A)
                for (double v : r) big = std::max(big, std::fabs(v));
            u = s.b;
            for (size_t k = 0; k < n; ++k) {
                size_t p = k;
                for (size_t i = k; i < n; ++i)
                    if (std::fabs(s.A[i][k]) > std::fabs(s.A[p][k])) p = i;
                if (std::fabs(s.A[p][k]) <= 1e-6 * big) return false;
                std::swap(s.A[p], s.A[k]);
                std::swap(u[p], u[k]);
                for (size_t i = k + 1; i < n; ++i) {
                    double m = s.A[i][k] / s.A[k][k];
                    if (m == 0) continue;
                    for (size_t j = k; j < n; ++j) s.A[i][j] -= m * s.A[k][j];
                    u[i] -= m * u[k];
                }
            }
            for (size_t k = n; k-- > 0;) {
                for (size_t j = k + 1; j < n; ++j) u[k] -= s.A[k][j] * u[j];
                u[k] /= s.A[k][k];
            }
            return true;
        }
        std::map<Key, int> equation;    // of the current system, once known

        void read(std::map<Key, double> & u)
        {
            Sut in;
            for (auto & [nd, v] : ds->solution()) {
                const void * p = nd.operator->();
                double val = v;
                Host h;
                if (!key.count(p)) fail("F01/field", "the solution has a node that is in no element");
                u[key[p]] = val;
            }
        }
        void compare(const System & s, const char * when)
        {
            auto & q = st();
            int n = (int) s.free.size();
            if (q.size != n) fail("F01/count", "the system handed to the solver has %d equations instead of %d", (int) q.size, n);
            double big = 1e-300;
            for (auto & r : s.A)
                for (double v : r) big = std::max(big, std::fabs(v));
            for (auto & [ka, ea] : equation)
                for (auto & [kb, eb] : equation) {
                    double real = q.A[(size_t) (ea * n + eb)], want = s.A[(size_t) s.row.at(ka)][(size_t) s.row.at(kb)];
                    if (!(std::fabs(real - want) <= 1e-9 * big))
                        fail(solved || tagged ? "F02,F03/matrix" : "F02/matrix", "%s: the entry of (%d %d) and (%d %d) is %.17g instead of %.17g", when, ka.first, ka.second, kb.first, kb.second, real, want);
                }
            double bs = 1e-300;
            for (double v : s.scale) bs = std::max(bs, v);
            for (double v : s.b) bs = std::max(bs, std::fabs(v));
            for (auto & [ka, ea] : equation) {
                double real = q.b[(size_t) ea], want = s.b[(size_t) s.row.at(ka)];
                if (!(std::fabs(real - want) <= 1e-9 * bs))
                    fail(prescribed ? "F02/prescribed-values" : solved || tagged ? "F02,F03/rhs" : "F02/rhs", "%s: the right hand side of (%d %d) is %.17g instead of %.17g", when, ka.first, ka.second, real, want);
            }
        }
        // the numbers of the equations, by a solve that hands them back
        bool tag(const Op & op)
        {
            if (!ds || !solver_there || !system_there) return false;
            std::map<Key, double> before;
            read(before);
            st().tag = true;
            st().solves = 0;
            auto o = call(op, [&] { solver->solve(); });
            st().tag = false;
            i64 fired = st().fired;
            bool ok = verdict(o, fired, "a solve");
            std::map<Key, double> u;
            read(u);
            if (!ok) {
                partial(before, u);
                return false;
            }
            System s = expected();
            equation.clear();
            std::set<int> numbers;
            for (auto & k : all) {
                if (fixed.count(k)) {
                    if (u[k] != 0 && !prescribed) fail("F01,F02/constrained-value", "the constrained node (%d %d) has the value %g", k.first, k.second, u[k]);
                    continue;
                }
                double e = u[k] - 1000;
                if (e != std::floor(e) || e < 0 || e >= (double) s.free.size() || !numbers.insert((int) e).second)
                    fail(solved || tagged ? "F01,F03/equations" : "F01/equations", "the node (%d %d) got equation %g of %d%s", k.first, k.second, e, (int) s.free.size(), numbers.count((int) e) ? ", which is taken" : "");
                equation[k] = (int) e;
            }
            compare(s, "numbered");
            ++tagged;
            return true;
        }
        // a failed solve may leave the old solution or the new one, nothing in between
        void partial(const std::map<Key, double> & before, const std::map<Key, double> & now)
        {
            if (before != now) fail("F03,S02/failed-solve-changes-solution", "a solve that failed changed the solution");
            probe("solve failed");
        }
        void solve(const Op & op)
        {
            if (!ds || !solver_there || !system_there) return;
            System s = expected();
            std::vector<double> u;
            if (!direct(s, u)) {
                probe("singular, not solved");
                return;
            }
            if (equation.empty() && !tag(Op {})) return;
            std::map<Key, double> before, now;
            read(before);
            st().solves = 0;
            auto o = call(op, [&] { solver->solve(); });
            bool ok = verdict(o, st().fired, "a solve");
            read(now);
            if (!ok) {
                partial(before, now);
                return;
            }
            if (st().solves != 1) fail("F02/solves", "the linear solver was called %d times", st().solves);
            compare(s, "solved");
            double big = 1e-300, ba = 1e-300, bb = 0;
            for (double v : u) big = std::max(big, std::fabs(v));
            for (auto & row : s.A)
                for (double v : row) ba = std::max(ba, std::fabs(v));
            for (double v : s.scale) bb = std::max(bb, v);
            for (auto & k : all) {
                double want = fixed.count(k) ? value_at(k) : u[(size_t) s.row.at(k)];
                if (!(std::fabs(now[k] - want) <= 1e-6 * (big + bb / ba)))
                    fail(prescribed ? "F02/prescribed-values" : solved || tagged ? "F02,F03/solution" : "F02/solution", "the solution at (%d %d) is %.17g instead of %.17g", k.first, k.second, now[k], want);
            }
            if (solved) probe("solved again");
            ++solved;
            log("solved %d", (int) s.free.size());
        }

        // ---------------------------------------------------------- fields and norms
        using Values = std::map<Key, double>;
        Poly local(const Cell & c, const Values & u) const
        {
            Poly p;
            auto ks = c.nodes(degree);
            auto sh_ = c.shapes(degree);
            for (size_t i = 0; i < ks.size(); ++i) p = p + sh_[i] * u.at(ks[i]);
            return p;
        }
        void fill(field_t & u, Values & v, Rng & r)
        {
            Sut in;
            for (auto & k : all) {
                Host h;
                v[k] = (double) r.range(-16, 16) / 8;
            }
            for (auto & [nd, val] : u) {
                const void * p = nd.operator->();
                val = v.at(key.at(p));
            }
        }
        double expected_norm(const Values & a, const Values * b, const Quad * q, bool h1) const
        {
            double s = 0;
            for (auto & c : cells) {
                Poly d = local(c, a) + (b ? local(c, *b) : c.of(*q)) * -1;
                s += c.integral(d * d);
                if (h1) {
                    auto g2 = c.gradient(d);
                    s += c.integral(g2[0] * g2[0] + g2[1] * g2[1]);
                }
            }
            return std::sqrt(std::max(0.0, s));
        }
        // how large the terms of a norm may get
        double square(const Values & v) const
        {
            double m = 0, s = 0;
            for (auto & [k, d] : v) m = std::max(m, d * d);
            for (auto & c : cells) {
                s += c.measure * m;
                for (auto & g2 : c.dl) s += c.measure * m * (g2[0] * g2[0] + g2[1] * g2[1]);
            }
            return s;
        }
        double square(const Quad & q) const
        {
            double s = 0;
            for (auto & c : cells) {
                double b = c.bound(c.of(q));
                s += b * b / c.measure;
                for (auto & g2 : c.dl) s += b * b / c.measure * (g2[0] * g2[0] + g2[1] * g2[1]);
            }
            return s;
        }
        void norm(const Op & op)
        {
            if (!fs) return;
            Rng r((u64) op.a * 7 + 1);
            Values va, vb;
            std::unique_ptr<field_t> a, b;
            auto o = call(op, [&] {
                a.reset(new field_t(fs->template fem_field<double>("a")));
                b.reset(new field_t(fs->template fem_field<double>("b")));
            });
            if (!verdict(o, st().fired, "building a field")) return;
            check_field_size(*a);
            fill(*a, va, r);
            fill(*b, vb, r);
            if (op.c % 4 == 0 && ds) {
                // the solution of the system takes part
                read(va);
            }
            const field_t & first = op.c % 4 == 0 && ds ? ds->solution() : *a;
            Quad q = draw((u64) op.d, 2, dim);
            double got = -1, want = -1;
            i64 how = op.b % 4;
            Op clean;    // (norms are computed on the stack)
            if (dim == 1 && (how & 1)) how ^= 1;
            bool h1 = how >= 2;
            auto z = call(clean, [&] {
                if constexpr (dim == 1) got = h1 ? fem::compute_h1_norm<QH>(*fs, first, *b) : fem::compute_l2_norm<QH>(*fs, first, *b);
                else if (how & 1) {
                    auto fq = function_of(&q);
                    // (the derivative of an opaque function is not available)
                    if (!h1) got = fem::compute_l2_norm<QH>(*fs, first, fq);
                } else got = h1 ? fem::compute_h1_norm<QH>(*fs, first, *b) : fem::compute_l2_norm<QH>(*fs, first, *b);
            });
            verdict(z, 0, "a norm");
            if ((how & 1) && h1) {
                exact_h1(first, va);
                return;
            }
            want = expected_norm(va, how & 1 ? nullptr : &vb, &q, h1);
            if (!(std::fabs(got * got - want * want) <= 1e-9 * (1 + square(va) + square(vb) + square(q)))) fail(h1 ? "F04/h1" : "F04/l2", "the %s norm is %.17g instead of %.17g", h1 ? "H1" : "L2", got, want);
            log("norm %.6g", got);
        }
        // against a function mito can differentiate
        void exact_h1(const field_t & u, const Values & v)
        {
            if constexpr (dim == 2) {
                constexpr auto X = mito::functions::component<coord_t, 0>;
                constexpr auto Y = mito::functions::component<coord_t, 1>;
                auto f0 = 1.5 * X * X - 2.0 * X * Y + Y;
                Quad q;
                q.c[2] = 1;
                q.c[3] = 1.5;
                q.c[4] = -2;
                double got = -1;
                Op clean;
                auto z = call(clean, [&] { got = fem::compute_h1_norm<QH>(*fs, u, f0); });
                verdict(z, 0, "a norm");
                double want = expected_norm(v, nullptr, &q, true);
                if (!(std::fabs(got * got - want * want) <= 1e-9 * (1 + square(v) + square(q)))) fail("F04/h1", "the H1 norm of the distance to a polynomial is %.17g instead of %.17g", got, want);
                log("h1 %.6g", got);
            }
        }
        // fields on a function space
        void field(const Op & op)
        {
            if (!fs) return;
            Rng r((u64) op.a * 29 + 1);
            Values va, vb;
            std::unique_ptr<field_t> a, b;
            auto o = call(op, [&] {
                a.reset(new field_t(fs->template fem_field<double>("a")));
                b.reset(new field_t(fs->template fem_field<double>("b")));
            });
            if (!verdict(o, st().fired, "building a field")) return;
            check_field_size(*a);
            {
                Sut in;
                for (auto & [nd, v] : std::as_const(*a))
                    if (v != 0) fail("D01/fresh", "a fresh field has the value %g", v);
            }
            fill(*a, va, r);
            fill(*b, vb, r);
            if (op.b % 2) {
                Sut in;
                std::unique_ptr<field_t> c(new field_t(std::move(*a)));
                a = std::move(c);
            }
            Sut in;
            // values are those written, at the nodes they were written to
            for (auto & e : fs->elements())
                for (auto & nd : e.connectivity()) {
                    double ga = std::as_const(*a)(nd), gb = (*b)(nd);
                    const Key & k = key.at(nd.operator->());
                    if (ga != va.at(k) || gb != vb.at(k)) fail("D01/value", "a field reads %g, %g at (%d %d) where %g, %g was written", ga, gb, k.first, k.second, va.at(k), vb.at(k));
                }
            // localised on an element, a field is the combination of its shape functions
            size_t at = 0;
            for (auto & e : fs->elements()) {
                std::array<double, 3> l { 0, 0, 0 };
                std::vector<int> v;
                {
                    Host h;
                    double u1 = r.unit(), u2 = r.unit() * (1 - u1);
                    if (r.chance(0.3)) u1 = u2 = 0;
                    if (dim == 1) l = { 1 - u1, u1, 0 };
                    else l = { u1, u2, 1 - u1 - u2 };
                }
                for (auto & nd : e.cell().nodes()) {
                    const void * p = nd.operator->();
                    Host h;
                    v.push_back(vertex.at(p));
                }
                double got;
                auto f1 = fem::localize(*a, e);
                if constexpr (dim == 1) got = f1({ l[1] });
                else got = f1({ l[0], l[1] });
                Host h;
                double want = local(Cell(dim, v, x), va).at(l);
                if (!(std::fabs(got - want) <= 1e-11 * (1 + std::fabs(want)))) fail("F04/localize", "a field localised on an element is %.17g instead of %.17g", got, want);
                ++at;
            }
            Host h;
            did();
            log("field on %d elements", (int) at);
        }
        // constraints on something that is not in the mesh
        void stranger(const Op & op)
        {
            if (!mesh) return;
            Rng r((u64) op.a);
            std::unique_ptr<domain_t> d;
            std::unique_ptr<bc_t> c;
            std::unique_ptr<fs_t> s;
            std::vector<Key> known = edges(true);
            {
                Sut in;
                std::unique_ptr<node_t> n1(new node_t(make_node({ 50, 1 }))), n2(new node_t(make_node({ 51, 3 })));
                d.reset(new domain_t(domain_of()));
                if (known.size() && op.b % 2)
                    for (auto & [a, b] : known)
constrain(nodes[(size_t) a], nodes[(size_t) b], *d);
                const node_t & other = known.size() && op.c % 2 ? nodes[(size_t) known[0].first] : *n2;
                constrain(dim == 1 ? *n1 : other, *n1, *d);
                c.reset(new bc_t(*d, *g));
            }
            Op clean;
            auto o = call(clean, [&] { s.reset(new fs_t(*manifold, *c)); });
            if (o.ok) fail("F01/stranger", "a constraint on a node that is not in the mesh is accepted");
            Sut in;
            s.reset();
            c.reset();
            d.reset();
            probe("constraint outside the mesh refused");
        }
        void reset_system(const Op & op)
        {
            if (!ds || !system_there) return;
            auto o = call(op, [&] {
                ds->linear_system().destroy();
                ds->linear_system().create(ds->n_equations());
            });
            if (!verdict(o, st().fired, "creating a linear system again")) {
                // (what is left is destroyed and the problem is built again)
                drop();
                return;
            }
        }
        void noise(const Op & op)
        {
            Rng r((u64) op.a);
            Sut in;
            std::unique_ptr<cs_t> c(new cs_t());
            std::vector<std::unique_ptr<node_t>> keep;
            for (int i = 0; i < 3 + op.b % 5; ++i) {
                if constexpr (dim == 1) keep.emplace_back(new node_t(geo::node(*c, { (double) i })));
                else keep.emplace_back(new node_t(geo::node(*c, { (double) i, 1.0 * i * i })));
            }
            std::vector<std::unique_ptr<dnode_t>> dn;
            for (int i = 0; i < op.c % 7; ++i) dn.emplace_back(new dnode_t());
            std::unique_ptr<mesh_t> m(new mesh_t());
            if constexpr (dim == 1) m->insert({ *keep[0], *keep[1] });
            else m->insert({ *keep[0], *keep[1], *keep[2] });
        }
        void step(const Op & op) override
        {
            switch (op.kind) {
            case K_BUILD: build(op); break;
            case K_SPACE: space(op); break;
            case K_SYSTEM: equation.clear(), system(op); break;
            case K_TAG: tag(op); break;
            case K_SOLVE: solve(op); break;
            case K_SOURCE: sources(op.d); break;
            case K_NORM: norm(op); break;
            case K_FIELD: field(op); break;
            case K_STRANGER: stranger(op); break;
            case K_RESET: reset_system(op); break;
            case K_SOLVER: make_solver(op); break;
            case K_NOISE: noise(op); break;
            case K_DROP: drop_all(); break;
            }
        }
        void finish() override
        {
            if (ds && system_there) {
                if (!solver_there) make_solver(Op {});
                solve(Op {});
            }
            drop_all();
            Sut in;
            for (auto & q : f) q.reset();
        }
        u64 hash() const override
        {
            u64 h = (u64) degree * 3 + dim;
            h = hcomb(h, (u64) cells.size() * 100 + fixed.size());
            h = hcomb(h, (u64) (lhs[0] + 5 * lhs[1] + 25 * lhs[2] + 125 * lhs[3] + 625 * rhs[0] + 3125 * rhs[1]));
            return hcomb(h, (u64) (std::min(solved, 3) * 16 + std::min(tagged, 3) * 4 + solver_there * 2 + system_there));
        }
    };

    // ------------------------------------------------------------------ plans
    void gen_with(Rng & r, Plan & p, int tier, bool faults)
    {
        plan_memory(r, p);
        int tasks = (int) r.range(1, 3);
        p.cfg["tasks"] = tasks;
        p.cfg["faulty"] = faults;
        for (int i = 0; i < tasks; ++i) p.cfg["type" + std::to_string(i)] = r.below(3);
        Swarm kinds(r, { { K_BUILD, 0.4 }, { K_SPACE, 0.8 }, { K_SYSTEM, 1 }, { K_TAG, 1.5 }, { K_SOLVE, 3 }, { K_SOURCE, 1 }, { K_NORM, 1 },
                         { K_FIELD, 0.6 }, { K_STRANGER, 0.2 }, { K_RESET, 0.3 }, { K_SOLVER, 0.4 }, { K_NOISE, 0.6 }, { K_DROP, 0.1 } },
                    { K_SOLVE });
        Scheduler s(r, tasks);
        int n = (int) r.range(4, tier ? 40 : 24);
        double rate = faults ? 0.1 + 0.4 * r.unit() : 0;
        std::vector<int> level((size_t) tasks, 0);
        for (int i = 0; i < n; ++i) {
            Op o;
            o.task = s.next(r);
            int & l = level[(size_t) o.task];
            // (first a mesh, a space and a system, then anything)
            o.kind = l == 0 ? K_BUILD : l == 1 ? K_SPACE : l == 2 ? K_SYSTEM : kinds.pick(r);
            if (o.kind == K_BUILD || o.kind == K_DROP) l = o.kind == K_BUILD ? 1 : 0;
            else if (o.kind == K_SPACE) l = 2;
            else if (o.kind == K_SYSTEM) l = 3;
            o.a = r.below(100000);
            o.b = r.below(100000);
            o.c = r.below(100000);
            o.d = r.below(100000);
            if (r.chance(rate)) {
                if (r.chance(0.5)) {
                    o.fk = F_IO;
                    i64 k = r.pick({ PF_ONCE, PF_ONCE, PF_FROM, PF_DIVERGE });
                    i64 big = o.kind == K_SOLVE || o.kind == K_TAG ? 200 : 20;
                    o.fn = k + 8 * (1 + (r.chance(0.5) ? r.below(6) : r.below(big)));
                } else {
                    o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                    o.fn = r.chance(0.5) ? r.range(1, 8) : r.range(1, 120);
                }
            }
            p.ops.push_back(o);
        }
    }
    void gen(Rng & r, Plan & p, int tier) { gen_with(r, p, tier, false); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_with(r, p, tier, true); }

    void run(const Plan & p)
    {
        start_memory(p);
        int tasks = (int) p.get("tasks", 1);
        std::vector<std::unique_ptr<Problem>> w;
        for (int i = 0; i < tasks; ++i) {
            i64 t = p.get(("type" + std::to_string(i)).c_str());
            if (t == 0) w.emplace_back(new P<Seg1>(i, p));
            else if (t == 1) w.emplace_back(new P<Tri1>(i, p));
            else w.emplace_back(new P<Tri2>(i, p));
        }
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            auto & q = *w[(size_t) (op.task % tasks)];
            q.step(op);
            state(q.hash());
            log("%lld by %lld", (long long) op.kind, (long long) op.task);
        }
        at(step);
        for (auto & q : w) q->finish();
        if (!st().live.empty()) fail("S03/leak", "a %s is still alive after everything was destroyed", st().live.begin()->second);
    }
    void start()
    {
        setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);    // (no daemon)
        mito::petsc::initialize();
        PetscPopSignalHandler();
        PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
    }
    struct Start {
        Start() { on_start(start); }
    } start_;
    Registrar r1("fem", gen, run);
    Registrar r2("fem_faults", gen_faults, run);
}    // namespace
