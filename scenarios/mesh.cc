// Meshes: clients insert, erase, duplicate, flip, move and query cells over a shared pool of nodes,
// while unrelated work goes on in the topology. The oracle knows cells as tuples of node numbers.
#include "../sim/sim.h"

#include <mito/geometry.h>
#include <mito/mesh.h>
#include <algorithm>
#include <array>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace sim;
namespace top = mito::topology;
namespace geo = mito::geometry;
namespace msh = mito::mesh;

namespace {
    int parity(const std::vector<int> & a, const std::vector<int> & b)
    {
        std::vector<int> p;
        for (int x : a) p.push_back((int) (std::find(b.begin(), b.end(), x) - b.begin()));
        int s = 1;
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t j = i + 1; j < p.size(); ++j)
                if (p[i] > p[j]) s = -s;
        return s;
    }
    std::vector<int> sorted(std::vector<int> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    }
    // an oriented facet: its vertices, and its orientation relative to their sorted order
    using key_t = std::pair<std::vector<int>, int>;
    key_t key_of(const std::vector<int> & v) { return { sorted(v), parity(v, sorted(v)) }; }
    key_t opposite(key_t k)
    {
        k.second = -k.second;
        return k;
    }
    std::vector<key_t> facets(const std::vector<int> & v)
    {
        // the facets of a simplex as its composition orients them (inwards in 3D)
        static const int eps[4] = { 0, +1, +1, -1 };
        std::vector<key_t> out;
        for (size_t i = 0; i < v.size(); ++i) {
            auto w = v;
            w.erase(w.begin() + (long) i);
            key_t k = key_of(w);
            k.second *= (i % 2 ? -1 : 1) * eps[v.size() - 1];
            out.push_back(k);
        }
        return out;
    }
    // what a set of cells says its boundary is
    std::vector<key_t> boundary_of(const std::vector<key_t> & all)
    {
        std::map<key_t, int> n;
        for (auto & k : all) n[k]++;
        std::vector<key_t> out;
        for (auto & k : all)
            if (!n.count(opposite(k))) out.push_back(k);
        std::sort(out.begin(), out.end());
        return out;
    }
    std::vector<int> as_cell(key_t k)
    {
        if (k.second < 0 && k.first.size() > 1) std::swap(k.first[0], k.first[1]);
        return k.first;
    }

    enum {
        K_INSERT, K_INSERT_NEAR, K_DUP, K_INSERT_CELL, K_INSERT_FLIP, K_ERASE, K_ERASE_TWICE, K_TOPDUP, K_GEODUP, K_MOVE, K_BOUNDARY, K_FILTER,
        K_NODES, K_NOISE, K_NOISE_ERASE, K_CLEAR, K_GEOMETRY, K_FLIPDIAG, K_BULK, K_BULK_ERASE
    };

    void gen_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(6);
        p.cfg["meshes"] = r.range(1, 3);
        p.cfg["nodes"] = r.range(4, 12);
        p.cfg["faults"] = mode;
        bool large = r.chance(0.025);    // a run with large meshes
        if (large) p.cfg["nodes"] = r.range(8, 90), p.cfg["meshes"] = r.range(1, 2);
        i64 n = large ? r.range(6, 20) : r.range(6, tier ? 120 : 50);
        Swarm sw(r, { { K_INSERT, 4 }, { K_INSERT_NEAR, 5 }, { K_DUP, 2 }, { K_INSERT_CELL, 2 }, { K_INSERT_FLIP, 1.5 }, { K_ERASE, 5 }, { K_ERASE_TWICE, 0.7 }, { K_TOPDUP, 0.7 }, { K_GEODUP, 0.7 }, { K_MOVE, 1 }, { K_BOUNDARY, 2 }, { K_FILTER, 1.2 }, { K_NODES, 0.5 }, { K_NOISE, 3 }, { K_NOISE_ERASE, 1.5 }, { K_CLEAR, 0.3 }, { K_GEOMETRY, 1 }, { K_FLIPDIAG, 1 } }, { K_INSERT, K_INSERT_NEAR });
        Scheduler sc(r, 3);
        i64 span = r.pick({ 3, 8, 20, 60 });
        double rate = r.pick({ 5, 15, 40 }) / 100.0;
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (large && (i == 0 || r.chance(0.15))) {
                o.kind = i == 0 || r.chance(0.5) ? K_BULK : K_BULK_ERASE;
                o.b = r.range(40, r.pick({ 150, 400, 700 }));
            }
            if (mode && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_mesh(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 0); }
    void gen_mesh_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 1); }

    template <int N, int D>
    void run(const Plan & p)
    {
        start_memory(p);
        using cell_t = geo::geometric_simplex_t<N, D>;
        using mesh_type = msh::mesh_t<cell_t>;
        using node_t = geo::node_t<D>;
        using coord_t = geo::coordinates_t<D, geo::CARTESIAN>;
        const bool FAULTS = p.get("faults") != 0;
        const int NM = (int) std::max<i64>(1, p.get("meshes", 1)), NV = (int) std::max<i64>(N + 1, p.get("nodes", 4));
        bool faulted = false;
        char lb[96];
        auto L = [&](const char * props, const char * what) -> const char * {
            snprintf(lb, sizeof lb, "%s%s/%s", FAULTS && faulted ? "M06," : "", props, what);
            return lb;
        };

        struct Cell {
            std::vector<int> v;
            cell_t * at;
        };
        struct Mesh {
            std::unique_ptr<mesh_type> m;
            std::vector<Cell> cells;
            std::vector<cell_t *> erased;    // erased cells whose place has not been reused
        };
        std::vector<Mesh> M((size_t) NM);
        geo::coordinate_system_t<coord_t> * cs = nullptr;
        std::vector<node_t> nodes;
        std::vector<std::array<double, D>> xyz;
        std::map<const void *, int> vertex_id;
        Rng world((u64) p.seed ^ 0x77);
        {
            Sut in;
            cs = new geo::coordinate_system_t<coord_t>();
            for (int i = 0; i < NV; ++i) {
                std::array<double, D> x;
                for (auto & c : x) c = (double) world.range(-64, 64) / 16;
                coord_t c = [&]<size_t... K>(std::index_sequence<K...>) { return coord_t { x[K]... }; }(std::make_index_sequence<D> {});
                nodes.push_back(geo::node(*cs, c));
                Host h;
                xyz.push_back(x);
                vertex_id[nodes.back()->vertex().operator->()] = i;
            }
            for (auto & m : M) m.m.reset(new mesh_type());
        }
        std::vector<top::simplex_t<N>> noise;

        auto vid = [&](const top::vertex_t & v, const char * what) {
            auto it = vertex_id.find(v.operator->());
            if (it == vertex_id.end()) fail(L("G02,M01", "foreign-vertex"), "after %s: a cell names a vertex that is not in the mesh", what);
            return it->second;
        };
        auto nid = [&](const node_t & n, const char * what) {
            int i = vid(n->vertex(), what);
            if (!(n == nodes[(size_t) i])) fail(L("G02,M01", "foreign-node"), "after %s: a vertex is paired with another node than it was given with", what);
            return i;
        };
        auto ids = [&](const auto & ns, const char * what) {
            std::vector<int> o;
            for (auto & n : ns) o.push_back(nid(n, what));
            return o;
        };
        auto make = [&](const std::vector<int> & v) {
            return [&]<size_t... K>(std::index_sequence<K...>) { return typename cell_t::nodes_type { nodes[(size_t) v[K]]... }; }(std::make_index_sequence<N + 1> {});
        };
        auto all_facets = [&](const Mesh & m) {
            std::vector<key_t> f;
            for (auto & c : m.cells)
                for (auto & k : facets(c.v)) f.push_back(k);
            return f;
        };
        // a cell's simplex, nodes and vertices are in step
        auto coherent = [&](const auto & c, const char * what) {
            auto v = ids(c.nodes(), what);
            std::vector<int> w;
            for (auto & x : c.simplex()->vertices()) w.push_back(vid(x, what));
            if (sorted(v) != sorted(w)) fail(L("G02", "vertices"), "after %s: the nodes of a cell do not sit on the vertices of its simplex", what);
            if (parity(v, w) != 1) fail(L("G02", "orientation"), "after %s: the nodes of a cell are ordered against its orientation", what);
            return v;
        };
        // the boundary mesh against the model
        auto check_boundary = [&](Mesh & m, auto & b, const char * what) {
            auto want = boundary_of(all_facets(m));
            if constexpr (N > 1) {
                std::vector<key_t> got;
                for (auto & c : b.cells()) got.push_back(key_of(coherent(c, what)));
                std::sort(got.begin(), got.end());
                if (got != want) fail(L("M02", "boundary"), "after %s: the boundary mesh has %zu cells, the boundary has %zu facets%s", what, got.size(), want.size(), got.size() == want.size() ? " (different ones)" : "");
                if (b.nCells() != (int) want.size()) fail(L("M02", "boundary-size"), "after %s: the boundary mesh counts %d cells", what, b.nCells());
            } else {
                std::set<int> got, w;
                for (auto & n : b) got.insert(nid(n, what));
                for (auto & k : want) w.insert(k.first[0]);
                if (got != w || b.size() != w.size()) fail(L("M02", "boundary"), "after %s: the boundary has %zu nodes instead of %zu", what, b.size(), w.size());
            }
        };
        auto verify = [&](Mesh & m, const char * what) {
            u64 sh = hcomb(N, D);
            if (m.m->nCells() != (int) m.cells.size()) fail(L("M01", "count"), "after %s: the mesh counts %d cells, %zu are in it", what, m.m->nCells(), m.cells.size());
            std::map<const cell_t *, const Cell *> at;
            for (auto & c : m.cells) at[c.at] = &c;
            if (at.size() != m.cells.size()) fail(L("M01", "address"), "after %s: two cells share a place", what);
            size_t n = 0;
            for (auto & c : std::as_const(*m.m).cells()) {
                auto it = at.find(&c);
                if (it == at.end()) fail(L("M01", "foreign-cell"), "after %s: iteration visits a cell that is not in the mesh", what);
                auto v = coherent(c, what);
                if (v != it->second->v) fail(L("M01,G02", "nodes"), "after %s: a cell changed its nodes", what);
                at.erase(it);
                ++n;
            }
            if (!at.empty()) fail(L("M01", "missing-cell"), "after %s: iteration visits %zu of %zu cells", what, n, m.cells.size());
            // each facet
            auto all = all_facets(m);
            std::set<key_t> have(all.begin(), all.end());
            for (auto & c : std::as_const(*m.m).cells())
                for (auto & s : c.simplex()->composition()) {
                    key_t k;
                    if constexpr (N == 1)
                        k = { { vid(s->footprint(), what) }, s->orientation() };
                    else {
                        std::vector<int> w;
                        for (auto & x : s->vertices()) w.push_back(vid(x, what));
                        k = key_of(w);
                    }
                    bool want = !(have.count(k) && have.count(opposite(k))), got;
                    {
                        Sut in;
                        got = m.m->isOnBoundary(s);
                    }
                    if (got != want) fail(L("M02", "on-boundary"), "after %s: a facet %s on the boundary is said %s", what, want ? "that is" : "that is not", got ? "to be" : "not to be");
                }
            auto bd = boundary_of(all);
            int bs;
            {
                Sut in;
                bs = msh::boundary_size(*m.m);
            }
            if (bs != (int) bd.size()) fail(L("M02", "boundary-size"), "after %s: the boundary size is %d, %zu facets are on the boundary", what, bs, bd.size());
            sh = hcomb(hcomb(sh, m.cells.size()), bd.size());
            for (auto & c : m.cells) sh = hcomb(sh, (u64) (c.v[0] * 31 + c.v.back()));
            state(sh);
        };
        // requests that may be made to fail: nothing may have changed, and again they must work
        auto request = [&](const Op & op, const char * what, auto && f) {
            Outcome o = act(op, f);
            if (!o.ok) {
                if (!o.bad_alloc || !op.fk) fail(L("M01", "refused"), "%s threw: %s", what, o.bad_alloc ? "bad_alloc" : o.what.c_str());
                faulted = true;
                probe("request-failed");
                for (auto & m : M) verify(m, what);
                Op again = op;
                again.fk = 0;
                o = act(again, f);
                if (!o.ok) fail("M06/not-usable", "%s still fails after the fault is over: %s", what, o.what.c_str());
            }
        };
        auto choose = [&](u64 seed, std::vector<int> from, size_t n) {
            Rng r(seed);
            for (size_t i = 0; i < from.size(); ++i) std::swap(from[i], from[i + (size_t) r.below((i64) (from.size() - i))]);
            from.resize(n);
            return from;
        };
        std::vector<int> every((size_t) NV);
        std::iota(every.begin(), every.end(), 0);
        auto inserted = [&](Mesh & m, const std::vector<int> & v, cell_t * at) {
            for (auto & c : m.cells)
                if (c.at == at) fail(L("M01", "overwritten"), "an insertion overwrote a cell that is in the mesh");
            m.erased.erase(std::remove(m.erased.begin(), m.erased.end(), at), m.erased.end());
            m.cells.push_back({ v, at });
        };
        auto insert = [&](const Op & op, Mesh & m, const std::vector<int> & v, const char * what) {
            auto ns = make(v);
            cell_t * at = nullptr;
            request(op, what, [&] { at = &m.m->insert(ns); });
            inserted(m, v, at);
        };
        // drop from the model what is no longer in the mesh; everything that is must be known
        auto sync = [&](Mesh & m, const char * what) {
            std::set<const cell_t *> now;
            for (auto & c : std::as_const(*m.m).cells()) now.insert(&c);
            std::vector<Cell> keep;
            for (auto & c : m.cells) {
                if (now.erase(c.at)) keep.push_back(c);
                else m.erased.push_back(c.at);
            }
            if (!now.empty()) fail(L("M03", "foreign-cell"), "after %s: the mesh has cells that were not there before", what);
            m.cells = keep;
        };

        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            Mesh & m = M[(size_t) (op.task % NM)];
            const char * what = "nothing";
            switch (op.kind) {
            case K_INSERT:
                what = "insertion";
                insert(op, m, choose((u64) op.a, every, N + 1), what);
                break;
            case K_INSERT_NEAR: {
                what = "insertion of a neighbour";
                // across a facet of an existing cell, with the opposite orientation there
                if (m.cells.empty()) break;
                auto & c = m.cells[(size_t) (op.a % (i64) m.cells.size())];
                size_t i = (size_t) (op.b % (N + 1));
                int far = -1;
                for (int k = 0; k < NV; ++k) {
                    int x = (int) ((op.c + k) % NV);
                    if (std::find(c.v.begin(), c.v.end(), x) == c.v.end()) { far = x; break; }
                }
                if (far < 0) break;
                auto v = c.v;
                v[i] = far;
                // replacing one vertex keeps the other facet's orientation unless two are exchanged
                if (op.d % 8) {
                    if (N == 1) std::swap(v[0], v[1]);
                    else std::swap(v[(i + 1) % (N + 1)], v[(i + 2) % (N + 1)]);
                }
                // any even reordering
                auto w = choose((u64) op.d, v, v.size());
                if (parity(w, v) < 0) std::swap(w[0], w[1]);
                if (N > 1) v = w;
                insert(op, m, v, what);
                probe("neighbour");
                break;
            }
            case K_DUP: {
                what = "insertion of a duplicate";
                if (m.cells.empty()) break;
                auto v = m.cells[(size_t) (op.a % (i64) m.cells.size())].v;
                insert(op, m, choose((u64) op.b, v, v.size()), what);
                break;
            }
            case K_INSERT_CELL: {
                what = "insertion of an existing cell";
                Mesh & o = M[(size_t) (op.b % NM)];
                if (o.cells.empty()) break;
                auto & c = o.cells[(size_t) (op.a % (i64) o.cells.size())];
                auto v = c.v;
                cell_t * src = c.at, *at = nullptr;
                request(op, what, [&] { at = &m.m->insert(std::as_const(*src)); });
                inserted(m, v, at);
                break;
            }
            case K_INSERT_FLIP: {
                what = "insertion of a flipped cell";
                if (m.cells.empty()) break;
                auto & c = m.cells[(size_t) (op.a % (i64) m.cells.size())];
                auto v = c.v;
                cell_t * src = c.at, *at = nullptr;
                std::optional<cell_t> flipped;
                request(op, what, [&] { flipped.emplace(geo::flip(*src)); });
                auto w = coherent(*flipped, what);
                if (sorted(w) != sorted(v) || parity(w, v) != -1) fail(L("G02", "flip"), "the flip of a cell does not have its orientation reversed");
                if (flipped->simplex()->orientation() != -src->simplex()->orientation() || flipped->simplex()->footprint() != src->simplex()->footprint())
                    fail(L("G02", "flip"), "the flip of a cell does not ride on the same footprint with opposite orientation");
                request(op, what, [&] { at = &m.m->insert(std::as_const(*flipped)); });
                inserted(m, w, at);
                break;
            }
            case K_ERASE: {
                what = "erasure";
                if (m.cells.empty()) break;
                size_t i = (size_t) (op.a % (i64) m.cells.size());
                cell_t * at = m.cells[i].at;
                request(op, what, [&] { m.m->erase(*at); });
                m.cells.erase(m.cells.begin() + (long) i);
                m.erased.push_back(at);
                break;
            }
            case K_ERASE_TWICE: {
                what = "erasure of an erased cell";
                if (m.erased.empty()) break;
                cell_t * at = m.erased[(size_t) (op.a % (i64) m.erased.size())];
                request(op, what, [&] { m.m->erase(*at); });
                break;
            }
            case K_TOPDUP:
            case K_GEODUP: {
                bool topo = op.kind == K_TOPDUP;
                what = topo ? "removal of topological duplicates" : "removal of geometrical duplicates";
                std::set<key_t> classes;
                for (auto & c : m.cells) {
                    key_t k = key_of(c.v);
                    if (topo) k.second = 0;
                    classes.insert(k);
                }
                if (classes.size() < m.cells.size()) probe(topo ? "topological-duplicates" : "geometrical-duplicates");
                auto go = [&] { topo ? m.m->erase_topological_duplicates() : m.m->erase_geometrical_duplicates(); };
                Outcome o = act(op, go);
                if (!o.ok) {
                    if (!o.bad_alloc || !op.fk) fail(L("M03", "refused"), "%s threw: %s", what, o.what.c_str());
                    faulted = true;
                    probe("request-failed");
                    sync(m, what);
                    verify(m, what);
                    Op again = op;
                    again.fk = 0;
                    o = act(again, go);
                    if (!o.ok) fail("M06/not-usable", "%s still fails after the fault is over", what);
                }
                sync(m, what);
                std::set<key_t> left;
                for (auto & c : m.cells) {
                    key_t k = key_of(c.v);
                    if (topo) k.second = 0;
                    if (!left.insert(k).second) fail(L("M03", "duplicate-left"), "after %s: a duplicate is left", what);
                }
                if (left != classes) fail(L("M03", "lost"), "after %s: %zu of %zu distinct cells are left", what, left.size(), classes.size());
                break;
            }
            case K_MOVE: {
                what = "move";
                std::unique_ptr<mesh_type> n;
                Mesh & other = M[(size_t) ((op.task + 1) % NM)];
                if (op.b % 3 == 0 && NM > 1) {
                    // the mesh it was moved from goes on as an empty mesh
                    request(op, what, [&] {
                        n.reset();
                        n.reset(new mesh_type(std::move(*m.m)));
                    });
                    {
                        Sut in;
                        other.m = std::move(n);
                    }
                    other.cells = std::exchange(m.cells, {});
                    other.erased = std::exchange(m.erased, {});
                    probe("moved-from-goes-on");
                    verify(other, what);
                    break;
                }
                request(op, what, [&] {
                    n.reset(new mesh_type(std::move(*m.m)));
                    m.m = std::move(n);
                });
                break;
            }
            case K_BOUNDARY: {
                what = "boundary";
                using boundary_t = decltype(msh::boundary(*m.m));
                std::unique_ptr<boundary_t> b;
                request(op, what, [&] { b.reset(new boundary_t(msh::boundary(*m.m))); });
                check_boundary(m, *b, what);
                if constexpr (N > 1) {
                    // and the boundary of the boundary, as the boundary's cells say
                    std::vector<key_t> ff;
                    for (auto & k : boundary_of(all_facets(m)))
                        for (auto & q : facets(as_cell(k))) ff.push_back(q);
                    auto want = boundary_of(ff);
                    int got;
                    {
                        Sut in;
                        got = msh::boundary_size(*b);
                    }
                    if (got != (int) want.size()) fail(L("M02", "boundary-of-boundary"), "the boundary of the boundary has %d facets instead of %zu", got, want.size());
                    using bb_t = decltype(msh::boundary(*b));
                    std::unique_ptr<bb_t> bb;
                    {
                        Sut in;
                        bb.reset(new bb_t(msh::boundary(*b)));
                    }
                    if constexpr (N > 2) {
                        std::vector<key_t> g;
                        for (auto & c : bb->cells()) g.push_back(key_of(coherent(c, what)));
                        std::sort(g.begin(), g.end());
                        if (g != want) fail(L("M02", "boundary-of-boundary"), "the boundary of the boundary is not what the boundary's cells say");
                    }
                    if (want.empty()) probe("closed-boundary");
                    Sut in;
                    bb.reset();
                }
                Sut in;
                b.reset();
                break;
            }
            case K_FILTER: {
                what = "filter";
                if constexpr (N > 1) {
                    // what the cells say: each cell its composition, each of these its own, and so on;
                    // an I-cell comes once for each way down to it, oriented as it is there
                    auto key_of_simplex = [&](const auto & s) {
                        std::vector<int> w;
                        for (auto & x : s->vertices()) w.push_back(vid(x, what));
                        return key_of(w);
                    };
                    auto compose = [&]<int I, int J>(auto & self, const top::simplex_t<J> & s, std::integral_constant<int, I> i, std::vector<key_t> & out) -> void {
                        if constexpr (I == J) out.push_back(key_of_simplex(s));
                        else
                            for (auto & q : s->composition()) self(self, q, i, out);
                    };
                    auto filtered = [&]<int I>(std::integral_constant<int, I> i) {
                        std::vector<key_t> want;
                        for (auto & c : std::as_const(*m.m).cells()) compose(compose, c.simplex(), i, want);
                        std::sort(want.begin(), want.end());
                        // these are the I-cells on the nodes of the cells
                        std::map<std::vector<int>, int> faces, seen;
                        for (auto & c : m.cells)
                            for (int bits = 0; bits < 1 << (N + 1); ++bits) {
                                std::vector<int> f;
                                for (int k = 0; k <= N; ++k)
                                    if (bits >> k & 1) f.push_back(c.v[(size_t) k]);
                                if (f.size() == I + 1) faces[sorted(f)] += I == 1 && N == 3 ? 2 : 1;
                            }
                        for (auto & k : want) seen[k.first]++;
                        if (seen != faces) fail(L("M07,T02", "composition"), "the compositions of the cells of a mesh have other %d-cells than the nodes say", I);
                        using filtered_t = msh::mesh_t<geo::geometric_simplex_t<I, D>>;
                        std::unique_ptr<filtered_t> f;
                        request(op, what, [&] {
                            f.reset();
                            f.reset(new filtered_t(msh::filter<I>(*m.m)));
                        });
                        auto content = [&](const filtered_t & g) {
                            std::vector<key_t> got;
                            for (auto & s : g.cells()) got.push_back(key_of(coherent(s, what)));
                            std::sort(got.begin(), got.end());
                            return got;
                        };
                        auto got = content(*f);
                        auto plain = [](std::vector<key_t> v) {
                            for (auto & k : v) k.second = 0;
                            std::sort(v.begin(), v.end());
                            return v;
                        };
                        if (plain(got) != plain(want)) fail(L("M07", "filter"), "filtering the %d-cells of a mesh of %zu cells gives %zu cells instead of %zu%s", I, m.cells.size(), got.size(), want.size(), got.size() == want.size() ? " (different ones)" : "");
                        if (got != want) fail(L("M07", "filter-orientation"), "the filtered %d-cells are not oriented as the compositions of the cells say", I);
                        if (f->nCells() != (int) got.size()) fail(L("M07", "filter-size"), "a filtered mesh of %zu cells counts %d", got.size(), f->nCells());
                        for (auto & s : std::as_const(*f).cells())
                            for (auto & q : s.nodes()) nid(q, what);
                        // the filtered mesh is a mesh like any other
                        if (op.b % 2) {
                            bool topo = op.c % 2;
                            request(op, "removing duplicates from a filtered mesh", [&] { topo ? f->erase_topological_duplicates() : f->erase_geometrical_duplicates(); });
                            auto left = content(*f);
                            if (topo) left = plain(left), want = plain(want);
                            want.erase(std::unique(want.begin(), want.end()), want.end());
                            if (left != want) fail(L("M03,M07", "filter-duplicates"), "removing the duplicates of a filtered mesh leaves %zu cells, %zu are distinct", left.size(), want.size());
                            probe("filtered-mesh-without-duplicates");
                        }
                        if constexpr (I > 1) {
                            using edges_t = msh::mesh_t<geo::geometric_simplex_t<1, D>>;
                            std::unique_ptr<edges_t> e;
                            std::vector<key_t> wanted;
                            for (auto & c : std::as_const(*f).cells()) compose(compose, c.simplex(), std::integral_constant<int, 1> {}, wanted);
                            std::sort(wanted.begin(), wanted.end());
                            Op again = op;
                            again.fk = 0;
                            request(again, what, [&] { e.reset(new edges_t(msh::filter<1>(*f))); });
                            std::vector<key_t> edges;
                            for (auto & s : e->cells()) edges.push_back(key_of(coherent(s, what)));
                            std::sort(edges.begin(), edges.end());
                            if (edges != wanted) fail(L("M07", "filter-twice"), "filtering a filtered mesh gives %zu edges instead of %zu", edges.size(), wanted.size());
                            Sut in;
                            e.reset();
                        }
                        Sut in;
                        f.reset();
                    };
                    if constexpr (N == 3) {
                        if (op.a % 2) filtered(std::integral_constant<int, 2> {});
                        else filtered(std::integral_constant<int, 1> {});
                    } else
                        filtered(std::integral_constant<int, 1> {});
                }
                break;
            }
            case K_BULK: {
                what = "many insertions";
                Rng w((u64) op.a);
                Op plain = op;
                plain.fk = 0;
                for (i64 i = 0; i < op.b; ++i) {
                    auto v = choose(w.next(), every, N + 1);
                    if (!m.cells.empty() && w.chance(0.6)) {
                        // across a facet of another cell
                        auto u = m.cells[(size_t) w.below((i64) m.cells.size())].v;
                        size_t k = (size_t) w.below(N + 1);
                        if (std::find(u.begin(), u.end(), v[0]) == u.end()) {
                            u[k] = v[0];
                            if (N == 1) std::swap(u[0], u[1]);
                            else std::swap(u[(k + 1) % (N + 1)], u[(k + 2) % (N + 1)]);
                            v = u;
                        }
                    }
                    // (some of them under the fault, wherever it strikes)
                    Op one = plain;
                    if (op.fk && w.chance(0.15)) one.fk = op.fk, one.fn = w.range(1, 20);
                    insert(one, m, v, what);
                }
                if (m.cells.size() > 128) probe("more-than-128-cells");
                if (m.cells.size() > 256) probe("more-than-256-cells");
                break;
            }
            case K_BULK_ERASE: {
                what = "many erasures";
                Rng w((u64) op.a);
                Op plain = op;
                plain.fk = 0;
                for (i64 i = 0; i < op.b && !m.cells.empty(); ++i) {
                    size_t k = (size_t) w.below((i64) m.cells.size());
                    cell_t * at = m.cells[k].at;
                    request(plain, what, [&] { m.m->erase(*at); });
                    m.cells.erase(m.cells.begin() + (long) k);
                    m.erased.push_back(at);
                }
                break;
            }
            case K_NODES: {
                what = "collecting nodes";
                std::unordered_set<node_t, mito::utilities::hash_function<node_t>> ns;
                request(op, what, [&] {
                    ns.clear();
                    msh::get_nodes(*m.m, ns);
                });
                std::set<int> got, want;
                for (auto & n : ns) got.insert(nid(n, what));
                for (auto & c : m.cells) want.insert(c.v.begin(), c.v.end());
                if (got != want || ns.size() != want.size()) fail(L("M01", "nodes-of-mesh"), "the mesh has %zu nodes, %zu are collected", want.size(), ns.size());
                Sut in;
                ns = {};
                break;
            }
            case K_NOISE: {
                what = "unrelated simplices";
                // somebody else uses the same vertices, perhaps the other way round
                auto v = choose((u64) op.a, every, N + 1);
                Op plain = op;
                plain.fk = 0;
                request(plain, what, [&] {
                    std::array<top::vertex_t, N + 1> tv;
                    for (size_t i = 0; i <= N; ++i) tv[i] = nodes[(size_t) v[i]]->vertex();
                    auto s = top::topology().template simplex<N>(tv);
                    if (op.b % 2) s = top::flip<N>(s);
                    if (op.c % 3 == 0)
                        for (auto & q : s->composition()) top::topology().template flip<N - 1>(q);
                    if (op.d % 2) noise.push_back(s);
                });
                break;
            }
            case K_NOISE_ERASE: {
                what = "erasing unrelated simplices";
                if (noise.empty()) break;
                Op plain = op;
                plain.fk = 0;
                request(plain, what, [&] {
                    auto s = noise[(size_t) (op.a % (i64) noise.size())];
                    noise.erase(noise.begin() + (op.a % (i64) noise.size()));
                    top::topology().template erase<N>(s);
                });
                break;
            }
            case K_CLEAR: {
                what = "a fresh mesh";
                Sut in;
                m.m.reset(new mesh_type());
                m.cells.clear();
                m.erased.clear();
                break;
            }
            case K_GEOMETRY: {
                what = "geometry of a cell";
                if (m.cells.empty()) break;
                auto & c = m.cells[(size_t) (op.a % (i64) m.cells.size())];
                coord_t bc;
                request(op, what, [&] { bc = geo::barycenter(*c.at, *cs); });
                std::array<double, D> mean {};
                for (int x : c.v)
                    for (int d = 0; d < D; ++d) mean[(size_t) d] += xyz[(size_t) x][(size_t) d] / (N + 1);
                auto comp = [&]<size_t... K>(std::index_sequence<K...>) { return std::array<double, D> { bc[K]... }; }(std::make_index_sequence<D> {});
                for (size_t d = 0; d < D; ++d)
                    if (std::abs(comp[d] - mean[d]) > 1e-12) fail(L("G02", "barycenter"), "the barycentre of a cell is not the mean of its nodes");
                // the corners of the reference simplex are mapped to the nodes
                auto par = c.at->parametrization(*cs);
                using P = typename cell_t::parametric_coordinates_type;
                for (int a = 0; a <= N; ++a) {
                    std::array<double, N> q {};
                    if (a < N) q[(size_t) a] = 1;
                    auto pt = [&]<size_t... K>(std::index_sequence<K...>) { return P { q[K]... }; }(std::make_index_sequence<N> {});
                    auto x = par(pt);
                    auto xs = [&]<size_t... K>(std::index_sequence<K...>) {
                        if constexpr (D == 1 && !requires { x[0]; }) return std::array<double, D> { (double) x };
                        else return std::array<double, D> { (double) x[K]... };
                    }(std::make_index_sequence<D> {});
                    for (size_t d = 0; d < D; ++d)
                        if (std::abs(xs[d] - xyz[(size_t) c.v[(size_t) a]][d]) > 1e-12) fail(L("G02", "parametrization"), "a corner of the reference simplex is not mapped to its node");
                }
                // its director edges
                auto [p0, dir] = geo::directors(*c.at, *cs);
                for (size_t j = 0; j < N; ++j) {
                    auto ds = [&]<size_t... K>(std::index_sequence<K...>) {
                        if constexpr (D == 1 && !requires { dir[j][0]; }) return std::array<double, D> { (double) dir[j] };
                        else return std::array<double, D> { (double) dir[j][K]... };
                    }(std::make_index_sequence<D> {});
                    for (size_t d = 0; d < D; ++d)
                        if (ds[d] != xyz[(size_t) c.v[j + 1]][d] - xyz[(size_t) c.v[0]][d]) fail(L("G02", "directors"), "a director of a cell is not the difference of its nodes");
                }
                break;
            }
            case K_FLIPDIAG: {
                what = "flipping a diagonal";
                if constexpr (N == 2) {
                    // two cells that share an edge, consistently oriented
                    int i = -1, j = -1;
                    for (size_t a = 0; a < m.cells.size() && i < 0; ++a)
                        for (size_t b = 0; b < m.cells.size() && i < 0; ++b) {
                            size_t aa = (a + (size_t) op.a) % m.cells.size();
                            if (aa == b || sorted(m.cells[aa].v) == sorted(m.cells[b].v)) continue;
                            int shared = 0;
                            for (auto & f : facets(m.cells[aa].v))
                                for (auto & g : facets(m.cells[b].v)) shared += f == opposite(g);
                            if (shared == 1) i = (int) aa, j = (int) b;
                        }
                    if (i < 0) break;
                    auto c0 = m.cells[(size_t) i], c1 = m.cells[(size_t) j];
                    std::optional<std::pair<cell_t, cell_t>> got;
                    request(op, what, [&] { got.emplace(geo::flip_diagonal<D>(std::pair<cell_t, cell_t> { *c0.at, *c1.at })); });
                    auto v0 = coherent(got->first, what), v1 = coherent(got->second, what);
                    // the two together have the same outline
                    std::vector<key_t> before, after;
                    for (auto & c : { c0.v, c1.v })
                        for (auto & k : facets(c)) before.push_back(k);
                    for (auto & c : { v0, v1 })
                        for (auto & k : facets(c)) after.push_back(k);
                    if (boundary_of(before) != boundary_of(after)) fail(L("T05,G02", "flip-diagonal"), "flipping the diagonal of two cells changed their outline");
                    if (sorted(v0) == sorted(c0.v) || sorted(v0) == sorted(c1.v)) fail(L("T05,G02", "flip-diagonal"), "flipping the diagonal of two cells gave one of them back");
                    // take them into the mesh instead of the old ones
                    if (op.b % 2) {
                        cell_t *a0 = nullptr, *a1 = nullptr;
                        Op plain = op;
                        plain.fk = 0;
                        request(plain, what, [&] {
                            m.m->erase(*c0.at);
                            m.m->erase(*c1.at);
                            a0 = &m.m->insert(std::as_const(got->first));
                            a1 = &m.m->insert(std::as_const(got->second));
                        });
                        std::erase_if(m.cells, [&](auto & c) { return c.at == c0.at || c.at == c1.at; });
                        m.erased.push_back(c0.at);
                        m.erased.push_back(c1.at);
                        inserted(m, v0, a0);
                        inserted(m, v1, a1);
                        probe("diagonal-flipped");
                    }
                    Sut in;
                    got.reset();
                }
                break;
            }
            }
            log("%lld m%lld k%lld %s | %zu cells", (long long) step, (long long) (op.task % NM), (long long) op.kind, what, m.cells.size());
            verify(m, what);
        }
        for (auto & m : M) verify(m, "the end");
        Sut in;
        for (auto & m : M) m.m.reset();
        noise.clear();
    }

    void run_mesh(const Plan & p)
    {
        switch (p.get("kind") % 6) {
        case 0: return run<2, 2>(p);
        case 1: return run<3, 3>(p);
        case 2: return run<2, 3>(p);
        case 3: return run<1, 1>(p);
        case 4: return run<1, 2>(p);
        default: return run<1, 3>(p);
        }
    }
    Registrar reg_mesh("mesh", gen_mesh, run_mesh);
    Registrar reg_mesh_faults("mesh_faults", gen_mesh_faults, run_mesh);
}
