// Meshes for the scenarios: blueprints they are built from, and views of what they consist of.
#pragma once
#include "../sim/sim.h"

#include <mito/geometry.h>
#include <mito/mesh.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>

using namespace sim;
namespace top = mito::topology;
namespace geo = mito::geometry;
namespace msh = mito::mesh;

namespace {
    template <int D>
    using vec = std::array<double, D>;

    std::vector<int> sorted(std::vector<int> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    }
    int parity(const std::vector<int> & a)
    {
        int s = 1;
        for (size_t i = 0; i < a.size(); ++i)
            for (size_t j = i + 1; j < a.size(); ++j)
                if (a[i] > a[j]) s = -s;
        return s;
    }
    // the wedge product of the edges of a simplex: its oriented measure (times n!)
    template <int D>
    std::vector<double> wedge(const std::vector<vec<D>> & x)
    {
        std::vector<vec<D>> e;
        for (size_t i = 1; i < x.size(); ++i) {
            vec<D> d;
            for (size_t k = 0; k < D; ++k) d[k] = x[i][k] - x[0][k];
            e.push_back(d);
        }
        std::vector<double> w;
        if (e.empty()) return { 1 };
        if (e.size() == 1) w.assign(e[0].begin(), e[0].end());
        if (e.size() == 2)
            for (size_t i = 0; i < D; ++i)
                for (size_t j = i + 1; j < D; ++j) w.push_back(e[0][i] * e[1][j] - e[0][j] * e[1][i]);
        if constexpr (D == 3)
            if (e.size() == 3)
                w.push_back(e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]));
        return w;
    }
    template <class C>
    auto components(const C & c)
    {
        constexpr int D = C::dim;
        return [&]<size_t... K>(std::index_sequence<K...>) { return vec<D> { c[K]... }; }(std::make_index_sequence<D> {});
    }

    // a digest of which cells there are, and where
    template <class X>
    u64 digest(const std::vector<std::vector<int>> & cells, const X & x)
    {
        u64 h = 7;
        for (auto & c : cells)
            for (int i : c)
                for (double q : x[(size_t) i]) {
                    u64 bits;
                    memcpy(&bits, &q, 8);
                    h = hcomb(h, bits);
                }
        return h;
    }

    // what a mesh consists of, with its vertices numbered in the order of their first appearance
    template <class M>
    struct View {
        static constexpr int D = M::dim, N = M::order;
        std::vector<std::vector<int>> cells;
        std::vector<vec<D>> x;         // by vertex
        std::map<const void *, int> id;
        bool twice = false;            // a vertex with two points, or a point with two vertices
        template <class CS>
        View(const M & m, const CS & cs)
        {
            std::map<const void *, const void *> pt, vt;
            for (auto & c : m.cells()) {
                std::vector<int> v;
                for (auto & n : c.nodes()) {
                    const void * a = n->vertex().operator->();
                    const void * p = n->point().operator->();
                    auto [it, fresh] = id.insert({ a, (int) x.size() });
                    if (fresh) x.push_back(components(cs.coordinates(n->point())));
                    twice |= pt.insert({ a, p }).first->second != p || vt.insert({ p, a }).first->second != a;
                    v.push_back(it->second);
                }
                cells.push_back(v);
            }
        }
        std::vector<vec<D>> at(const std::vector<int> & v) const
        {
            std::vector<vec<D>> o;
            for (int i : v) o.push_back(x[(size_t) i]);
            return o;
        }
        std::set<std::pair<int, int>> edges() const
        {
            std::set<std::pair<int, int>> e;
            for (auto & c : cells)
                for (size_t i = 0; i < c.size(); ++i)
                    for (size_t j = i + 1; j < c.size(); ++j) e.insert(std::minmax(c[i], c[j]));
            return e;
        }
        // oriented facets without a partner
        std::vector<std::vector<int>> boundary() const
        {
            std::map<std::pair<std::vector<int>, int>, int> n;
            std::vector<std::vector<int>> all, out;
            for (auto & c : cells)
                for (size_t i = 0; i < c.size(); ++i) {
                    auto w = c;
                    w.erase(w.begin() + (long) i);
                    if (i % 2) {
                        if (w.size() > 1) std::swap(w[0], w[1]);
                    }
                    int s = (w.size() > 1) ? parity(w) : (i % 2 ? -1 : 1);
                    n[{ sorted(w), s }]++;
                    all.push_back(w);
                    all.back().push_back(s);
                }
            for (auto w : all) {
                int s = w.back();
                w.pop_back();
                if (!n.count({ sorted(w), -s })) out.push_back(w);
            }
            return out;
        }
        std::vector<vec<D>> points() const
        {
            auto o = x;
            std::sort(o.begin(), o.end());
            return o;
        }
        // the oriented measures of the cells (or facets)
        std::vector<std::vector<double>> wedges(const std::vector<std::vector<int>> & what) const
        {
            std::vector<std::vector<double>> o;
            for (auto & c : what) {
                o.push_back(wedge<D>(at(c)));
                for (auto & q : o.back()) q += 0.0;    // no negative zeroes
            }
            std::sort(o.begin(), o.end());
            return o;
        }
    };
    std::vector<std::vector<double>> children(const std::vector<std::vector<double>> & w, int n)
    {
        std::vector<std::vector<double>> o;
        for (auto c : w) {
            for (auto & q : c) q = q / n + 0.0;
            for (int i = 0; i < n; ++i) o.push_back(c);
        }
        std::sort(o.begin(), o.end());
        return o;
    }

    // noise: leaves free places in the topology in an order of its own
    template <class R>
    void scatter(R & r, int n)
    {
        std::vector<top::simplex_t<1>> s;
        for (int i = 0; i < n; ++i) s.push_back(top::segment({ top::vertex(), top::vertex() }));
        while (!s.empty()) {
            size_t i = (size_t) r.below((i64) s.size());
            auto x = s[i];
            s.erase(s.begin() + (long) i);
            if (r.chance(0.7)) top::topology().template erase<1>(x);
        }
    }

    // a description of a mesh from which it can be built again and again
    template <int D>
    struct Blueprint {
        std::vector<vec<D>> x;
        std::vector<std::vector<int>> cells;
    };
    template <int N, int D>
    Blueprint<D> blueprint(u64 seed, int nv, int nc)
    {
        Rng r(seed);
        Blueprint<D> b;
        std::set<vec<D>> used;
        i64 span = 8;
        while ((int) b.x.size() < nv) {
            vec<D> c;
            for (auto & q : c) q = (double) r.range(-span, span);
            if (used.insert(c).second) b.x.push_back(c);
            else ++span;
        }
        std::set<std::vector<int>> have;
        for (int i = 0; i < nc; ++i) {
            std::vector<int> v;
            if (!b.cells.empty() && r.chance(0.75)) {
                // across a facet
                v = b.cells[(size_t) r.below((i64) b.cells.size())];
                int far = (int) r.below(nv);
                if (std::find(v.begin(), v.end(), far) != v.end()) continue;
                size_t k = (size_t) r.below(N + 1);
                v[k] = far;
                if (N == 1) std::swap(v[0], v[1]);
                else if (r.chance(0.85)) std::swap(v[(k + 1) % (N + 1)], v[(k + 2) % (N + 1)]);
            } else
                while ((int) v.size() <= N) {
                    int q = (int) r.below(nv);
                    if (std::find(v.begin(), v.end(), q) == v.end()) v.push_back(q);
                }
            auto key = sorted(v);
            key.push_back(parity(v));
            if (have.insert(key).second) b.cells.push_back(v);
        }
        return b;
    }
    // a structured mesh: connected, and conforming in the usual sense
    template <int N, int D>
    Blueprint<D> grid(u64 seed, int n)
    {
        Rng r(seed);
        Blueprint<D> b;
        int side = n + 1, total = 1;
        for (int d = 0; d < N; ++d) total *= side;
        for (int i = 0; i < total; ++i) {
            vec<D> c {};
            int k = i;
            for (int d = 0; d < N; ++d) c[(size_t) d] = (k % side) * 4, k /= side;
            if (N < D) c[D - 1] = (double) r.range(-2, 2);
            b.x.push_back(c);
        }
        int cells = 1;
        for (int d = 0; d < N; ++d) cells *= n;
        for (int i = 0; i < cells; ++i) {
            int at[3] = { i % n, N > 1 ? i / n % n : 0, N > 2 ? i / n / n : 0 };
            // Kuhn's subdivision of the cell into n! simplices
            std::vector<int> p(N);
            std::iota(p.begin(), p.end(), 0);
            do {
                int q[3] = { at[0], at[1], at[2] };
                auto index = [&] { return N == 1 ? q[0] : N == 2 ? q[0] + side * q[1] : q[0] + side * (q[1] + side * q[2]); };
                std::vector<int> v { index() };
                for (int k : p) {
                    q[k]++;
                    v.push_back(index());
                }
                if (N > 1 && parity(std::vector<int>(p.begin(), p.end())) < 0) std::swap(v[0], v[1]);
                b.cells.push_back(v);
            } while (std::next_permutation(p.begin(), p.end()));
        }
        for (size_t i = 0; i < b.cells.size(); ++i) std::swap(b.cells[i], b.cells[i + (size_t) r.below((i64) (b.cells.size() - i))]);
        return b;
    }

    template <int N, int D>
    struct World {
        using cell_t = geo::geometric_simplex_t<N, D>;
        using mesh_type = msh::mesh_t<cell_t>;
        using node_t = geo::node_t<D>;
        using coord_t = geo::coordinates_t<D, geo::CARTESIAN>;
        using cs_t = geo::coordinate_system_t<coord_t>;
        static coord_t coord(const vec<D> & x)
        {
            return [&]<size_t... K>(std::index_sequence<K...>) { return coord_t { x[K]... }; }(std::make_index_sequence<D> {});
        }
        static auto tuple(const std::vector<node_t> & nodes, const std::vector<int> & v)
        {
            return [&]<size_t... K>(std::index_sequence<K...>) { return typename cell_t::nodes_type { nodes[(size_t) v[K]]... }; }(std::make_index_sequence<N + 1> {});
        }
        // build the blueprint; {r} decides what else happens meanwhile
        // (on vertices from the {pool}, which other meshes may share, if there is one)
        static std::unique_ptr<mesh_type> build(const Blueprint<D> & b, cs_t & cs, std::vector<node_t> & nodes, Rng * r, double erase = 0, std::vector<top::vertex_t> * pool = nullptr)
        {
            nodes.clear();
            for (auto & x : b.x) {
                if (!pool) {
                    nodes.push_back(geo::node(cs, coord(x)));
                    continue;
                }
                if (pool->size() <= nodes.size()) pool->push_back(top::vertex());
                auto point = geo::point_cloud<D>().point();
                cs.place(point, coord(x));
                nodes.push_back(node_t((*pool)[nodes.size()], point));
            }
            std::unique_ptr<mesh_type> m(new mesh_type());
            for (auto & v : b.cells) {
                if (r && r->chance(erase)) {
                    // a cell that comes and goes
                    auto w = b.cells[(size_t) r->below((i64) b.cells.size())];
                    auto & c = m->insert(tuple(nodes, w));
                    m->insert(tuple(nodes, v));
                    m->erase(c);
                } else
                    m->insert(tuple(nodes, v));
            }
            return m;
        }
        // let go of a mesh, and erase its cells from the topology
        static void raze(std::unique_ptr<mesh_type> & m)
        {
            std::vector<std::remove_cvref_t<decltype(std::declval<cell_t>().simplex())>> simplices;
            for (auto & c : m->cells()) simplices.push_back(c.simplex());
            m.reset();
            while (!simplices.empty()) {
                auto s = simplices.back();
                simplices.pop_back();
                top::topology().template erase<N>(s);
            }
        }
    };
}
