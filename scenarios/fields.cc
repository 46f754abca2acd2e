// Discrete fields: values at the nodes, cells and points of a mesh. The model is a map from the
// number of an entry to the last value written there.
#include "../sim/sim.h"

#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/discrete.h>
#include <algorithm>
#include <array>
#include <memory>
#include <set>

using namespace sim;
namespace geo = mito::geometry;
namespace msh = mito::mesh;
namespace dis = mito::discrete;

namespace {
    using vec3 = mito::tensor::vector_t<3>;
    void put(double & y, double v) { y = v; }
    void put(vec3 & y, double v) { y = vec3 { v, 2 * v, -v }; }
    template <class Y, size_t Q>
    void put(std::array<Y, Q> & y, double v)
    {
        for (size_t q = 0; q < Q; ++q) put(y[q], v + (double) q);
    }
    bool is(const double & y, double v) { return y == v; }
    bool is(const vec3 & y, double v) { return y[0] == v && y[1] == 2 * v && y[2] == -v; }
    template <class Y, size_t Q>
    bool is(const std::array<Y, Q> & y, double v)
    {
        for (size_t q = 0; q < Q; ++q)
            if (!is(y[q], v + (double) q)) return false;
        return true;
    }
    // (the zero value is not 'put(0)' for arrays)
    bool zero(const double & y) { return y == 0; }
    bool zero(const vec3 & y) { return y[0] == 0 && y[1] == 0 && y[2] == 0; }
    template <class Y, size_t Q>
    bool zero(const std::array<Y, Q> & y)
    {
        for (auto & v : y)
            if (!zero(v)) return false;
        return true;
    }

    enum { K_CELL, K_ERASE, K_NODE, K_CREATE, K_WRITE, K_SWEEP, K_READ, K_INSERT, K_FOREIGN, K_MOVE, K_DROP, K_LOOSE };

    constexpr double FRESH = 1e300;    // an entry nobody has written yet

    // a field as the model knows it
    struct Any {
        std::map<int, double> want;    // by the number of the entry
        std::string name;
        virtual ~Any() = default;
        virtual void verify(const char * what) = 0;
        virtual void write(const Op & op, int i, double v) = 0;
        virtual void sweep(const Op & op, double v, bool by_const_end) = 0;
        virtual Outcome insert(const Op & op, int i, double v, bool with_value) = 0;
        virtual bool foreign(int i) = 0;
        virtual void move(const Op & op) = 0;
        virtual int universe() const = 0;
    };
    template <class K, class Y>
    struct Field : Any {
        using field_t = dis::DiscreteField<K, Y>;
        const std::vector<K> & all;    // every key there is
        std::unique_ptr<field_t> f;
        Field(const std::vector<K> & a) : all(a) {}
        ~Field()
        {
            Sut in;
            f.reset();
        }
        int universe() const override { return (int) all.size(); }
        bool good(const Y & y, double v) { return v == FRESH ? zero(y) : is(y, v); }
        void verify(const char * what) override
        {
            if (f->size() != (int) want.size()) fail("D01/size", "after %s: a field says it has %d entries, it should have %zu", what, f->size(), want.size());
            if (f->name() != name) fail("D01/name", "after %s: a field goes by another name", what);
            for (auto & [i, v] : want) {
                const Y *a, *b;
                try {
                    a = &(*f)(all[(size_t) i]);
                    b = &std::as_const(*f)(all[(size_t) i]);
                } catch (const std::exception & e) {
                    fail("D01/missing", "after %s: a field has no value for one of its entries: %s", what, e.what());
                }
                if (a != b) fail("D01/two-values", "after %s: reading and writing reach different values", what);
                if (!good(*a, v)) fail(v == FRESH ? "D01/fresh" : "D01/value", "after %s: entry %d has another value than the one written", what, i);
            }
            std::map<const void *, int> id;
            for (int i = 0; i < (int) all.size(); ++i) id[all[(size_t) i].operator->()] = i;
            for (int how = 0; how < 3; ++how) {
                std::set<int> seen;
                auto one = [&](const K & k, const Y & y) {
                    auto it = id.find(k.operator->());
                    if (it == id.end()) fail("D01/iteration", "after %s: iterating on a field yields an entry nobody made", what);
                    if (!want.count(it->second)) fail("D01/iteration", "after %s: iterating on a field yields an entry it does not have", what);
                    if (!seen.insert(it->second).second) fail("D01/iteration", "after %s: iterating on a field yields an entry twice", what);
                    if (!good(y, want[it->second])) fail("D01/iteration", "after %s: iterating on a field yields another value than the one written", what);
                };
                if (how == 0)
                    for (auto & [k, y] : *f) one(k, y);
                if (how == 1)
                    for (auto & [k, y] : std::as_const(*f)) one(k, y);
                if (how == 2)
                    for (auto it = f->cbegin(); it != f->cend(); ++it) one(it->first, it->second);
                if (seen.size() != want.size()) fail("D01/iteration", "after %s: iterating on a field yields %zu of its %zu entries", what, seen.size(), want.size());
            }
        }
        void write(const Op & op, int i, double v) override
        {
            Outcome o = act(op, [&] { put((*f)(all[(size_t) i]), v); });
            if (!o.ok) fail("D01/missing", "a value cannot be written to an entry of a field: %s", o.what.c_str());
            want[i] = v;
        }
        void sweep(const Op & op, double v, bool) override
        {
            std::map<const void *, int> id;
            for (int i = 0; i < (int) all.size(); ++i) id[all[(size_t) i].operator->()] = i;
            act(op, [&] {
                for (auto & [k, y] : *f) put(y, v + 16 * id.at(k.operator->()));
            });
            for (auto & [i, w] : want) w = v + 16 * i;
        }
        Outcome insert(const Op & op, int i, double v, bool with_value) override
        {
            Y y {};
            put(y, v);
            Outcome o = act(op, [&] { with_value ? f->insert(all[(size_t) i], y) : f->insert(all[(size_t) i]); });
            if (o.ok) want[i] = with_value ? v : FRESH;
            return o;
        }
        bool foreign(int i) override
        {
            Op none;
            Outcome a = act(none, [&] { (*f)(all[(size_t) i]); });
            Outcome b = act(none, [&] { std::as_const(*f)(all[(size_t) i]); });
            return !a.ok && !b.ok;
        }
        void move(const Op & op) override
        {
            std::unique_ptr<field_t> g;
            Op plain = op;
            plain.fk = 0;
            act(plain, [&] { g.reset(new field_t(std::move(*f))); });
            Sut in;
            f = std::move(g);
        }
    };

    template <class cell_t>
    struct World {
        static constexpr int D = cell_t::dim, N = cell_t::order;
        using node_t = geo::node_t<D>;
        using point_t = geo::point_t<D>;
        using mesh_t = msh::mesh_t<cell_t>;
        using simplex_t = typename cell_t::simplex_type;
        using dnode_t = dis::discretization_node_t;
        using coord_t = geo::coordinates_t<D, geo::CARTESIAN>;
        using cs_t = geo::coordinate_system_t<coord_t>;
        std::unique_ptr<cs_t> cs;
        std::unique_ptr<mesh_t> mesh;
        std::vector<node_t> nodes;
        std::vector<point_t> points;      // of the nodes first, then loose ones (same number: same entry)
        std::vector<simplex_t> simplices;
        std::vector<dnode_t> dnodes;
        struct C {
            std::vector<int> v;
            cell_t * at;
            int simplex;
        };
        std::vector<C> cells;
        std::vector<std::array<double, 3>> x;
        int before = 0;
        size_t most = 14;
        std::vector<std::unique_ptr<Any>> fields;

        static auto position(const std::array<double, 3> & p)
        {
            if constexpr (D == 2) return coord_t { p[0], p[1] };
            else return coord_t { p[0], p[1], p[2] };
        }
        void add_node(const Op & op)
        {
            // in convex position, so that any subset makes a proper simplex
            double t = (double) nodes.size() + 1;
            std::array<double, 3> p { t, t * t, t * t * t };
            std::unique_ptr<node_t> n;
            Op plain = op;
            plain.fk = 0;
            act(plain, [&] { n.reset(new node_t(geo::node(*cs, position(p)))); });
            x.push_back(p);
            nodes.push_back(*n);
            points.push_back((*n)->point());
            Sut in;
            n.reset();
        }
        void add_cell(const Op & op)
        {
            if ((int) nodes.size() < N + 1 || cells.size() > (most < 20 ? 25 : most)) return;
            Rng r((u64) op.a);
            std::vector<int> v;
            while ((int) v.size() < N + 1) {
                int i = (int) r.below((i64) nodes.size());
                if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i);
            }
            auto sorted = v;
            std::sort(sorted.begin(), sorted.end());
            for (auto & c : cells) {
                auto w = c.v;
                std::sort(w.begin(), w.end());
                if (w == sorted) return;
            }
            C c { v, nullptr, 0 };
            Op plain = op;
            plain.fk = 0;
            Outcome o = act(plain, [&] {
                auto n = [&](size_t i) -> const node_t & { return nodes[(size_t) v[i]]; };
                if constexpr (N == 1) c.at = &mesh->insert({ n(0), n(1) });
                if constexpr (N == 2) c.at = &mesh->insert({ n(0), n(1), n(2) });
                if constexpr (N == 3) c.at = &mesh->insert({ n(0), n(1), n(2), n(3) });
            });
            if (!o.ok) fail("exception/fields", "a cell cannot be inserted: %s", o.what.c_str());
            c.simplex = -1;
            for (size_t i = 0; i < simplices.size(); ++i)
                if (simplices[i].operator->() == c.at->simplex().operator->()) c.simplex = (int) i;
            if (c.simplex < 0) {
                c.simplex = (int) simplices.size();
                simplices.push_back(c.at->simplex());
            }
            cells.push_back(c);
        }
        void erase_cell(const Op & op)
        {
            if (cells.empty()) return;
            size_t i = (size_t) (op.a % (i64) cells.size());
            Op plain = op;
            plain.fk = 0;
            act(plain, [&] { mesh->erase(*cells[i].at); });
            cells.erase(cells.begin() + (long) i);
        }
        template <class K, class Y, class F>
        void make(const Op & op, const std::vector<K> & all, const std::set<int> & entries, const std::string & name, double v0, F && f)
        {
            auto a = std::make_unique<Field<K, Y>>(all);
            a->name = name;
            for (int i : entries) a->want[i] = v0;
            Outcome o = act(op, [&] { a->f.reset(f(name)); });
            if (!o.ok) {
                if (!o.bad_alloc || !op.fk) fail("D01/refused", "a field cannot be made: %s", o.what.c_str());
                probe("field not made");
                // once there is memory, it can be
                Op again = op;
                again.fk = 0;
                o = act(again, [&] { a->f.reset(f(name)); });
                if (!o.ok) fail("D01/not-usable", "a field cannot be made although the fault is over: %s", o.what.c_str());
            }
            a->verify("making it");
            fields.push_back(std::move(a));
        }
        void create(const Op & op)
        {
            if (fields.size() > 7) return;
            std::set<int> used, simp, pts;
            for (auto & c : cells) {
                used.insert(c.v.begin(), c.v.end());
                simp.insert(c.simplex);
            }
            std::string name = "field number " + std::to_string(op.b % 100);
            switch (op.c % 8) {
            case 0:
                make<node_t, double>(op, nodes, used, name, FRESH, [&](const std::string & n) { return new dis::mesh_field_t<D, double>(dis::mesh_field<double>(*mesh, n)); });
                break;
            case 1:
                make<node_t, vec3>(op, nodes, used, name, FRESH, [&](const std::string & n) { return new dis::mesh_field_t<D, vec3>(dis::mesh_field<vec3>(*mesh, n)); });
                break;
            case 2: {
                // the values of a field at the nodes
                double k = (double) (op.d % 17) / 4;
                auto f = mito::functions::function([k](const coord_t & q) -> mito::tensor::scalar_t { return k * q[0] + q[1]; });
                make<node_t, double>(op, nodes, used, name, FRESH, [&](const std::string & n) { return new dis::mesh_field_t<D, double>(dis::mesh_field(*mesh, *cs, f, n)); });
                break;
            }
            case 3:
                make<point_t, double>(op, points, [&] {
                    for (int i = 0; i < (int) points.size(); ++i) pts.insert(i);
                    return pts;
                }(), name, FRESH, [&](const std::string & n) { return new dis::point_field_t<D, double>(dis::point_field<double>(geo::point_cloud<D>(), n)); });
                break;
            case 4:
                make<simplex_t, std::array<double, 3>>(op, simplices, simp, name, FRESH, [&](const std::string & n) { return new dis::quadrature_field_t<simplex_t, 3, double>(dis::quadrature_field<double, 3>(*mesh, n)); });
                break;
            case 5: make<dnode_t, double>(op, dnodes, {}, name, FRESH, [&](const std::string & n) { return new dis::nodal_field_t<double>(n); }); break;
            case 6: {
                std::set<int> some;
                Rng r((u64) op.d);
                std::vector<dnode_t> picked;
                for (int i = 0; i < (int) dnodes.size(); ++i)
                    if (r.chance(0.7)) {
                        some.insert(i);
                        picked.push_back(dnodes[(size_t) i]);
                    }
                make<dnode_t, vec3>(op, dnodes, some, name, FRESH, [&](const std::string & n) { return new dis::nodal_field_t<vec3>(picked, n); });
                break;
            }
            case 7:
                make<point_t, vec3>(op, points, {}, name, FRESH, [&](const std::string & n) { return new dis::point_field_t<D, vec3>(n); });
                break;
            }
        }
        // fields made from a function start from the values of the function
        void run(const Plan & p)
        {
            {
                Sut in;
                before = geo::point_cloud<D>().size();
                cs.reset(new cs_t());
                mesh.reset(new mesh_t());
            }
            most = (size_t) p.get("most", 14);
            i64 step = 0;
            for (auto & op : p.ops) {
                at(step++);
                Any * f = fields.empty() ? nullptr : fields[(size_t) (op.a % (i64) fields.size())].get();
                const char * what = "nothing";
                switch (op.kind) {
                case K_NODE:
                    what = "a new node";
                    if (nodes.size() < most) add_node(op);
                    break;
                case K_LOOSE: {
                    what = "a new discretisation node";
                    if (dnodes.size() > most + 6) break;
                    std::unique_ptr<dnode_t> d;
                    {
                        Sut in;
                        d.reset(new dnode_t());
                    }
                    dnodes.push_back(*d);
                    Sut in;
                    d.reset();
                    break;
                }
                case K_CELL:
                    what = "inserting a cell";
                    add_cell(op);
                    break;
                case K_ERASE:
                    what = "erasing a cell";
                    erase_cell(op);
                    break;
                case K_CREATE: {
                    what = "making a field";
                    size_t n = fields.size();
                    if (op.c % 8 == 2) {
                        create_evaluated(op);
                    } else
                        create(op);
                    if (fields.size() > n) probe("fields", 1);
                    break;
                }
                case K_WRITE:
                    what = "writing a value";
                    if (f && f->want.size()) {
                        auto it = std::next(f->want.begin(), op.b % (i64) f->want.size());
                        f->write(op, it->first, (double) (op.d % 1000) / 8);
                    }
                    break;
                case K_SWEEP:
                    what = "writing all values";
                    if (f) f->sweep(op, (double) (op.d % 1000) / 8, op.b % 2);
                    break;
                case K_INSERT: {
                    what = "inserting an entry";
                    if (!f) break;
                    std::vector<int> free;
                    for (int i = 0; i < f->universe(); ++i)
                        if (!f->want.count(i)) free.push_back(i);
                    if (free.empty()) break;
                    int i = free[(size_t) (op.b % (i64) free.size())];
                    Outcome o = f->insert(op, i, (double) (op.d % 1000) / 8, op.c % 2);
                    if (!o.ok) {
                        if (!o.bad_alloc || !op.fk) fail("D01/refused", "an entry cannot be inserted: %s", o.what.c_str());
                        probe("entry not inserted");
                        f->verify("a failed insertion");
                        Op again = op;
                        again.fk = 0;
                        if (!f->insert(again, i, (double) (op.d % 1000) / 8, op.c % 2).ok) fail("D01/not-usable", "an entry cannot be inserted although the fault is over");
                    }
                    break;
                }
                case K_FOREIGN: {
                    what = "a look at an entry that is not there";
                    if (!f) break;
                    std::vector<int> free;
                    for (int i = 0; i < f->universe(); ++i)
                        if (!f->want.count(i)) free.push_back(i);
                    if (free.empty()) break;
                    if (!f->foreign(free[(size_t) (op.b % (i64) free.size())])) fail("D01/invented", "a field has a value where it has no entry");
                    probe("foreign entry refused");
                    break;
                }
                case K_MOVE:
                    what = "moving a field";
                    if (f) f->move(op);
                    break;
                case K_DROP:
                    what = "dropping a field";
                    if (f) fields.erase(fields.begin() + (long) (op.a % (i64) fields.size()));
                    break;
                case K_READ: what = "a look"; break;
                }
                if (most < 20 || step % 16 == 0) // (large runs: now and then)
                    for (auto & g : fields) g->verify(what);
                u64 h = hcomb(nodes.size(), cells.size());
                for (auto & g : fields) h = hcomb(h, g->want.size());
                state(h);
                log("%s: %zu fields, %zu cells", what, fields.size(), cells.size());
            }
            at(step);
            for (auto & g : fields) g->verify("everything");
            if (most > 20) probe("large runs");
            fields.clear();
            Sut in;
            mesh.reset();
            simplices.clear();
            nodes.clear();
            points.clear();
            dnodes.clear();
            cs.reset();
        }
        void create_evaluated(const Op & op)
        {
            size_t n = fields.size();
            if (n > 7) return;
            double k = (double) (op.d % 17) / 4;
            std::set<int> used;
            for (auto & c : cells) used.insert(c.v.begin(), c.v.end());
            auto f = mito::functions::function([k](const coord_t & q) -> mito::tensor::scalar_t { return k * q[0] + q[1]; });
            auto a = std::make_unique<Field<node_t, double>>(nodes);
            a->name = "evaluated";
            for (int i : used) a->want[i] = k * x[(size_t) i][0] + x[(size_t) i][1];
            auto go = [&] { a->f.reset(new dis::mesh_field_t<D, double>(dis::mesh_field(*mesh, *cs, f, a->name))); };
            Outcome o = act(op, go);
            if (!o.ok) {
                if (!o.bad_alloc || !op.fk) fail("D01/refused", "a field cannot be made: %s", o.what.c_str());
                Op again = op;
                again.fk = 0;
                o = act(again, go);
                if (!o.ok) fail("D01/not-usable", "a field cannot be made although the fault is over: %s", o.what.c_str());
            }
            a->verify("evaluating a function at the nodes");
            fields.push_back(std::move(a));
        }
    };

    void gen_any(Rng & r, Plan & p, int tier, bool faults)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(4);
        Swarm sw(r, { { K_CELL, 3 }, { K_ERASE, 1 }, { K_NODE, 2 }, { K_CREATE, 2 }, { K_WRITE, 4 }, { K_SWEEP, 1 }, { K_READ, 0.5 }, { K_INSERT, 3 }, { K_FOREIGN, 1 }, { K_MOVE, 0.7 }, { K_DROP, 0.6 }, { K_LOOSE, 1.5 } },
                 { K_NODE, K_CREATE, K_CELL });
        Scheduler sc(r, 3);
        i64 n = r.range(10, tier ? 200 : 80);
        // now and then fields with many entries
        bool large = r.chance(0.03);
        p.cfg["most"] = large ? r.pick({ 80, 150, 300 }) : 14;
        i64 first = large ? r.range(40, p.cfg["most"]) : 4;
        if (large) n = first + r.range(100, 400);
        double rate = r.pick({ 10, 30, 60 }) / 100.0;
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), i < first ? (large && i % 4 == 3 ? (i64) K_LOOSE : (i64) K_NODE) : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (faults && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, r.pick({ 3, 10, 40 }));
            }
            p.ops.push_back(o);
        }
    }
    void gen(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, false); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, true); }
    template <class cell_t>
    void with(const Plan & p)
    {
        World<cell_t> w;
        w.run(p);
    }
    void run(const Plan & p)
    {
        start_memory(p);
        switch (p.get("kind") % 4) {
        case 0: return with<geo::triangle_t<2>>(p);
        case 1: return with<geo::tetrahedron_t<3>>(p);
        case 2: return with<geo::segment_t<3>>(p);
        default: return with<geo::triangle_t<3>>(p);
        }
    }
    Registrar r1("fields", gen, run);
    Registrar r2("fields_faults", gen_faults, run);
}    // namespace
