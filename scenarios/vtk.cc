// VTK files: grids of meshes, point clouds and function spaces with the fields recorded on them,
// written by one process or by several. The library is a stand-in that records what it is handed
// and keeps the files in memory; the model is what the mesh and the fields were at the time.
#include "../sim/sim.h"

#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/fem.h>
#include <mito/constraints.h>
#include <mito/manifolds.h>
#include <mito/discrete.h>
#include <mito/io.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <optional>
#include <set>

using namespace sim;
namespace geo = mito::geometry;
namespace msh = mito::mesh;
namespace dis = mito::discrete;
namespace fem = mito::fem;
namespace vtk = mito::io::vtk;

namespace {
    enum { K_NODE, K_CELL, K_ERASE, K_LOOSE, K_SPACE, K_FIELD, K_CHANGE, K_WRITER, K_RECORD, K_WRITE, K_PARALLEL, K_DROP };

    using vec2 = mito::tensor::vector_t<2>;
    using vec3 = mito::tensor::vector_t<3>;
    void put(double & y, double v) { y = v; }
    void put(vec2 & y, double v) { y = vec2 { v, 2 * v + 1 }; }
    void put(vec3 & y, double v) { y = vec3 { v, 2 * v + 1, -v }; }
    std::vector<double> spelled(int components, double v)
    {
        std::vector<double> all { v, 2 * v + 1, -v };
        all.resize((size_t) components);
        return all;
    }

    // what a file should say; places are numbers of nodes or of points
    struct Model {
        int type = 0;
        bool shaky = false;    // something failed, or was refused, on the way
        std::map<int, std::array<double, 3>> x;
        std::vector<std::vector<int>> cells;
        struct Array {
            int components;
            std::map<int, double> v;
        };
        std::map<std::string, Array> arrays;
    };
    bool close(const std::array<double, 3> & a, const std::array<double, 3> & b)
    {
        for (size_t k = 0; k < 3; ++k)
            if (!(std::fabs(a[k] - b[k]) <= 1e-9)) return false;
        return true;
    }
    // nodes of a cell up to an even permutation
    std::vector<int> canonical(std::vector<int> v)
    {
        int s = 1;
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = i + 1; j < v.size(); ++j)
                if (v[i] > v[j]) s = -s;
        // (the orientation of a cell with two nodes that look the same cannot be told)
        std::sort(v.begin(), v.end());
        if (std::adjacent_find(v.begin(), v.end()) != v.end()) s = 0;
        v.push_back(s);
        return v;
    }
    void compare(const Model & m, const vtkstub::Content & c, const char * what)
    {
        // (a failure or a refusal that left something behind contradicts I05 as well)
        auto cls = [&](const char * k) { return std::string(m.shaky ? "I04,I05/" : "I04/") + k; };
        if (c.points.size() != m.x.size()) fail(cls("points").c_str(), "%s: the file has %zu points, the grid %zu", what, c.points.size(), m.x.size());
        if (c.cells.size() != m.cells.size()) fail(cls("cells").c_str(), "%s: the file has %zu cells, the grid %zu", what, c.cells.size(), m.cells.size());
        if (c.arrays.size() != m.arrays.size()) fail(cls("fields").c_str(), "%s: the file has %zu fields, %zu were recorded", what, c.arrays.size(), m.arrays.size());
        for (auto & [name, a] : m.arrays) {
            auto it = c.arrays.find(name);
            if (it == c.arrays.end()) fail(cls("fields").c_str(), "%s: the field '%s' is not in the file", what, name.c_str());
            if (it->second.components != a.components) fail(cls("fields").c_str(), "%s: the field '%s' has %d components, it should have %d", what, name.c_str(), it->second.components, a.components);
            if (it->second.values.size() != (size_t) a.components * c.points.size()) fail(cls("fields").c_str(), "%s: the field '%s' has %zu values for %zu points", what, name.c_str(), it->second.values.size(), c.points.size());
        }
        // places that look the same are one kind
        std::vector<std::pair<std::array<double, 3>, std::vector<double>>> kinds;
        std::map<int, int> kind;
        std::vector<int> many, seen;
        for (auto & [i, x] : m.x) {
            std::vector<double> v;
            for (auto & [name, a] : m.arrays)
                for (double w : spelled(a.components, a.v.at(i))) v.push_back(w);
            size_t k = 0;
            while (k < kinds.size() && !(close(kinds[k].first, x) && kinds[k].second == v)) ++k;
            if (k == kinds.size()) kinds.push_back({ x, v }), many.push_back(0);
            kind[i] = (int) k;
            ++many[k];
        }
        seen.assign(many.size(), 0);
        std::vector<int> of;
        for (size_t j = 0; j < c.points.size(); ++j) {
            std::vector<double> v;
            for (auto & [name, a] : c.arrays) v.insert(v.end(), a.values.begin() + (long) j * a.components, a.values.begin() + (long) (j + 1) * a.components);
            size_t k = 0;
            bool there = false;
            while (k < kinds.size() && !(close(kinds[k].first, c.points[j]) && kinds[k].second == v)) there |= close(kinds[k].first, c.points[j]), ++k;
            if (k == kinds.size()) fail(cls(there ? "values" : "place").c_str(), "%s: point %zu of the file, at (%g, %g, %g), %s", what, j, c.points[j][0], c.points[j][1], c.points[j][2], there ? "has the values of another" : "is not in the grid");
            of.push_back((int) k);
            ++seen[k];
        }
        if (seen != many) fail(cls("points").c_str(), "%s: a point of the grid is in the file twice, and another is missing", what);
        std::map<std::vector<int>, int> n;
        for (auto & v : m.cells) {
            std::vector<int> w;
            for (int i : v) w.push_back(kind.at(i));
            n[canonical(w)]++;
        }
        for (auto & [type, ids] : c.cells) {
            if (type != m.type) fail(cls("cells").c_str(), "%s: a cell is of type %d, it should be %d", what, type, m.type);
            std::vector<int> w;
            for (auto id : ids) {
                if (id < 0 || id >= (vtkIdType) of.size()) fail(cls("cells").c_str(), "%s: a cell has a point (%lld) that is not there", what, (long long) id);
                w.push_back(of[(size_t) id]);
            }
            auto it = n.find(canonical(w));
            if (it == n.end()) fail(cls("cells").c_str(), "%s: a cell of the file is not in the grid", what);
            if (!--it->second) n.erase(it);
        }
        if (vtkstub::world().misuse.size()) fail(cls("misuse").c_str(), "%s: %s", what, vtkstub::world().misuse.c_str());
    }

    // a field, and what it should hold
    struct AnyField {
        std::string name;
        int support = 0, components = 1;    // 0: nodes, 1: points, 2: discretisation nodes of a space
        int space = -1;
        std::map<int, double> want;
        virtual ~AnyField() = default;
        virtual void set(int i, double v) = 0;
    };
    struct AnyWriter {
        Model model;
        std::string file;
        int support = 0, space = -1;
        bool fields = true, parallel = false;
        virtual ~AnyWriter() = default;
        virtual void record(AnyField & f, const std::string & as) = 0;
        virtual void write() = 0;
    };

    template <class cell_t, class coord_t, int P>
    struct World {
        static constexpr int N = cell_t::order, D = coord_t::dim;
        using mesh_t = msh::mesh_t<cell_t>;
        using node_t = geo::node_t<D>;
        using point_t = geo::point_t<D>;
        using cs_t = geo::coordinate_system_t<coord_t>;
        using dnode_t = dis::discretization_node_t;
        using cloud_t = std::remove_cvref_t<decltype(geo::point_cloud<D>())>;
        static constexpr bool finite = P > 0;

        // a space of finite elements on a mesh of its own
        static auto domain_of()
        {
            if constexpr (N == 1) return std::set<node_t>();
            else return msh::mesh_t<geo::segment_t<D>>();
        }
        static auto zero()
        {
            return mito::functions::function([](const coord_t &) -> mito::tensor::scalar_t { return 0.0; });
        }
        template <int p>
        struct SpaceOf {
            using f_t = decltype(zero());
            using domain_t = decltype(domain_of());
            using bc_t = mito::constraints::dirichlet_bc_t<domain_t, f_t>;
            using manifold_t = decltype(mito::manifolds::manifold(std::declval<const mesh_t &>(), std::declval<const cs_t &>()));
            using fs_t = fem::function_space_t<fem::isoparametric_simplex_t<p, cell_t>, bc_t>;
            mesh_t mesh;
            domain_t domain = domain_of();
            f_t f = zero();
            std::unique_ptr<manifold_t> manifold;
            std::unique_ptr<bc_t> bc;
            std::unique_ptr<fs_t> fs;
        };
        struct NoSpace {};
        using space_t = typename std::conditional_t<finite, std::type_identity<SpaceOf<P>>, std::type_identity<NoSpace>>::type;
        struct Space {
            std::unique_ptr<space_t> s;
            std::vector<std::vector<int>> cells;
            std::map<int, dnode_t> dnode;      // by the number of the node
        };

        std::unique_ptr<cs_t> cs;
        std::vector<node_t> nodes;
        std::vector<std::array<double, 3>> x;                       // of the nodes
        std::vector<point_t> points;                                // of the cloud
        std::vector<std::array<double, 3>> px;
        std::vector<std::unique_ptr<mesh_t>> meshes;
        std::vector<std::vector<std::vector<int>>> cells;           // of each mesh
        std::vector<Space> spaces;
        std::vector<std::unique_ptr<AnyField>> fields;
        std::vector<std::unique_ptr<AnyWriter>> writers;
        int named = 0;

        template <class K, class Y>
        struct Field : AnyField {
            World & w;
            static auto kind()
            {
                if constexpr (finite && std::is_same_v<K, dnode_t>) return std::type_identity<typename space_t::fs_t::template fem_field_type<Y>>();
                else return std::type_identity<dis::DiscreteField<K, Y>>();
            }
            std::optional<typename decltype(kind())::type> f;
            const auto & values() const
            {
                if constexpr (std::is_same_v<K, dnode_t>) return f->nodal_values();
                else return *f;
            }
            Field(World & ww) : w(ww) {}
            ~Field()
            {
                Sut in;
                f.reset();
            }
            void set(int i, double v) override
            {
                Sut in;
                put((*f)(w.template key<K>(i, space)), v);
                Host h;
                want[i] = v;
            }
        };
        template <class K>
        K key(int i, int space)
        {
            if constexpr (std::is_same_v<K, node_t>) return nodes[(size_t) i];
            else if constexpr (std::is_same_v<K, point_t>) return points[(size_t) i];
            else return spaces[(size_t) space].dnode.at(i);
        }
        template <class W, int S>
        struct Writer : AnyWriter {
            std::optional<W> w;
            ~Writer()
            {
                Sut in;
                w.reset();
            }
            template <class Y>
            void as(AnyField & f, const std::string & name)
            {
                using K = std::conditional_t<S == 0, node_t, std::conditional_t<S == 1, point_t, dnode_t>>;
                auto & g = static_cast<Field<K, Y> &>(f);
                if (name.empty()) w->template record<Y>(g.values());
                else w->template record<Y>(g.values(), name);
            }
            void record(AnyField & f, const std::string & name) override
            {
                if constexpr (requires { w->grid(); }) return;
                else if (f.components == 1) as<double>(f, name);
                else if (f.components == 2) as<vec2>(f, name);
                else as<vec3>(f, name);
            }
            void write() override { w->write(); }
        };

        static coord_t coord(const std::array<double, 3> & c)
        {
            return [&]<size_t... K>(std::index_sequence<K...>) { return coord_t { c[K]... }; }(std::make_index_sequence<D> {});
        }
        static std::array<double, 3> cartesian(const std::array<double, 3> & c)
        {
            if constexpr (std::is_same_v<coord_t, geo::coordinates_t<2, geo::POLAR>>) return { c[0] * std::cos(c[1]), c[0] * std::sin(c[1]), 0 };
            else if constexpr (std::is_same_v<coord_t, geo::coordinates_t<3, geo::SPHERICAL>>)
                return { c[0] * std::sin(c[1]) * std::cos(c[2]), c[0] * std::sin(c[1]) * std::sin(c[2]), c[0] * std::cos(c[1]) };
            else {
                std::array<double, 3> o { 0, 0, 0 };
                for (size_t k = 0; k < D; ++k) o[k] = c[k];
                return o;
            }
        }
        static auto tuple(const std::vector<node_t> & all, const std::vector<int> & v)
        {
            return [&]<size_t... K>(std::index_sequence<K...>) { return typename cell_t::nodes_type { all[(size_t) v[K]]... }; }(std::make_index_sequence<N + 1> {});
        }

        // the operation must work, unless it met a fault; then it must work when asked again
        template <class F, class U>
        bool insist(const Op & op, const char * what, F && f, U && undo)
        {
            vtkstub::world().fail_at = 0;
            Outcome o = act(op, f);
            if (o.ok) return true;
            if (!o.bad_alloc || !op.fk) fail("I04/refused", "%s raised \"%s\"", what, o.what.c_str());
            probe("tried again");
            undo();
            Op again = op;
            again.fk = 0;
            o = act(again, f);
            if (!o.ok) fail("I05/not-usable", "%s raised \"%s\" although the fault is over", what, o.what.c_str());
            return true;
        }

        Model model_of(const std::vector<std::vector<int>> & c)
        {
            Model m;
            m.type = N == 1 ? VTK_LINE : N == 2 ? VTK_TRIANGLE : VTK_TETRA;
            m.cells = c;
            for (auto & v : c)
                for (int i : v) m.x[i] = x[(size_t) i];
            return m;
        }
        Model cloud_model()
        {
            Model m;
            for (size_t i = 0; i < points.size(); ++i) m.x[(int) i] = px[i];
            return m;
        }

        template <int S, class Make>
        std::unique_ptr<AnyWriter> make(const Op & op, const std::string & file, Make && mk)
        {
            using W = decltype(mk());
            auto w = std::make_unique<Writer<W, S>>();
            w->file = file;
            w->support = S;
            w->fields = !requires(W & q) { q.grid(); };
            insist(op, "making a writer", [&] { w->w.emplace(Elide<Make> { mk }); }, [] {});
            return w;
        }
        template <class Make>
        struct Elide {
            Make & mk;
            operator decltype(std::declval<Make &>()())() const { return mk(); }
        };
        std::unique_ptr<AnyWriter> writer(const Op & op, int support, int which, bool with_fields, bool parallel, const std::string & file)
        {
            std::unique_ptr<AnyWriter> w;
            if (support == 0) {
                auto & m = *meshes[(size_t) which];
                if (parallel && with_fields) w = make<0>(op, file, [&] { return vtk::parallel_field_writer(file, m, *cs); });
                else if (parallel) w = make<0>(op, file, [&] { return vtk::parallel_grid_writer(file, m, *cs); });
                else if (with_fields) w = make<0>(op, file, [&] { return vtk::field_writer(file, m, *cs); });
                else w = make<0>(op, file, [&] { return vtk::grid_writer(file, m, *cs); });
                w->model = model_of(cells[(size_t) which]);
            } else if (support == 1) {
                auto & c = geo::point_cloud<D>();
                if (parallel && with_fields) w = make<1>(op, file, [&] { return vtk::parallel_field_writer(file, c, *cs); });
                else if (parallel) w = make<1>(op, file, [&] { return vtk::parallel_grid_writer(file, c, *cs); });
                else if (with_fields) w = make<1>(op, file, [&] { return vtk::field_writer(file, c, *cs); });
                else w = make<1>(op, file, [&] { return vtk::grid_writer(file, c, *cs); });
                w->model = cloud_model();
            } else if constexpr (finite) {
                auto & fs = *spaces[(size_t) which].s->fs;
                if (parallel && with_fields) w = make<2>(op, file, [&] { return vtk::parallel_field_writer(file, fs, *cs); });
                else if (parallel) w = make<2>(op, file, [&] { return vtk::parallel_grid_writer(file, fs, *cs); });
                else if (with_fields) w = make<2>(op, file, [&] { return vtk::field_writer(file, fs, *cs); });
                else w = make<2>(op, file, [&] { return vtk::grid_writer(file, fs, *cs); });
                w->model = model_of(spaces[(size_t) which].cells);
                w->space = which;
            }
            w->parallel = parallel;
            w->model.shaky = op.fk != F_NONE;
            return w;
        }

        // does the field cover the grid of the writer?
        bool covers(const AnyField & f, const AnyWriter & w)
        {
            for (auto & [i, _] : w.model.x)
                if (!f.want.count(i)) return false;
            return true;
        }
        void record(const Op & op, AnyWriter & w, AnyField & f, const std::string & as)
        {
            std::string name = as.empty() ? f.name : as;
            auto go = [&] { w.record(f, as); };
            if (!covers(f, w)) {
                Outcome o = act(op, go);
                if (o.ok) fail("I04/invented", "a field without a value for every point of the grid was recorded");
                w.model.shaky = true;
                probe("field refused");
                return;
            }
            insist(op, "recording a field", go, [] {});
            if (op.fk) w.model.shaky = true;
            if (w.model.arrays.count(name)) probe("field recorded again");
            Model::Array a { f.components, {} };
            for (auto & [i, _] : w.model.x) a.v[i] = f.want.at(i);
            w.model.arrays[name] = a;
        }
        // write as process {rank} of {size}
        bool write(const Op & op, AnyWriter & w, int rank, int size)
        {
            auto & v = vtkstub::world();
            v.rank = rank;
            v.size = size;
            v.writes = v.fired = 0;
            v.fail_at = op.fk == F_IO ? (int) (1 + op.fn % 3) : 0;
            v.torn = op.d % 2;
            Outcome o = act(op, [&] { w.write(); });
            v.fail_at = 0;
            if (!o.ok || v.fired) w.model.shaky = true;
            if (v.fired) {
                fault(v.torn ? "torn write" : "failed write", v.fired);
                if (o.ok) fail("I05/not-reported", "a file was not written, and nobody was told");
                probe("failed write reported");
            } else if (!o.ok && !(o.bad_alloc && op.fk))
                fail("I04/refused", "a write raised \"%s\"", o.what.c_str());
            return o.ok;
        }

        std::map<std::string, Model> disk;      // what should be there
        void verify(const char * what)
        {
            auto & v = vtkstub::world();
            for (auto & [name, m] : disk) {
                auto it = v.disk.find(name);
                if (it == v.disk.end()) fail("I04/missing", "%s: the file '%s' is not there", what, name.c_str());
                compare(m, it->second, what);
            }
        }

        void run(const Plan & p)
        {
            auto & v = vtkstub::world();
            int ranks = 1 + (int) (p.get("ranks") % 4);
            bool coincide = p.get("coincide");
            {
                Sut in;
                cs.reset(new cs_t());
            }
            for (int i = 0; i < ranks; ++i) {
                Sut in;
                auto * m = new mesh_t();
                Host h;
                meshes.emplace_back(m);
                cells.emplace_back();
            }
            std::set<std::array<double, 3>> used;
            i64 step = -1;
            for (auto & op : p.ops) {
                at(++step);
                const char * what = "?";
                size_t me = (size_t) (op.task % ranks);
                AnyField * f = fields.empty() ? nullptr : fields[(size_t) (op.a % (i64) fields.size())].get();
                switch (op.kind) {
                case K_LOOSE:
                case K_NODE: {
                    what = "a node";
                    std::array<double, 3> c { 0, 0, 0 };
                    Rng r((u64) op.b * 65536 + (u64) op.c);
                    const i64 span = p.get("large") ? 300 : 6;
                    if (points.size() == 129) probe("more-than-128-points");
                    for (int tries = 0; tries < 50; ++tries) {
                        for (size_t k = 0; k < D; ++k) c[k] = (double) r.range(-span, span) / 2;
                        if constexpr (!std::is_same_v<coord_t, geo::coordinates_t<D, geo::CARTESIAN>>) {
                            c[0] = (double) r.range(1, span + 2) / 2;
                            c[1] = (double) r.range(1, 12) / 4.1;
                            if (D == 3) c[2] = (double) r.range(-12, 12) / 4.1;
                        }
                        if (coincide || used.insert(c).second) break;
                    }
                    // (a few places are simply shared)
                    if (op.kind == K_NODE) {
                        std::optional<node_t> n;
                        insist(op, "making a node", [&] { n.emplace(geo::node(*cs, coord(c))); }, [] {});
                        nodes.push_back(*n);
                        points.push_back(n->operator->()->point());
                        x.push_back(cartesian(c));
                    } else {
                        what = "a point";
                        Sut in;
                        auto q = geo::point_cloud<D>().point();
                        cs->place(q, coord(c));
                        Host h;
                        points.push_back(q);
                    }
                    px.push_back(cartesian(c));
                    break;
                }
                case K_CELL: {
                    what = "inserting a cell";
                    if (nodes.size() <= (size_t) N) break;
                    Rng r((u64) op.b * 65536 + (u64) op.c);
                    std::vector<int> w;
                    while (w.size() <= (size_t) N) {
                        int i = (int) r.below((i64) nodes.size());
                        if (std::find(w.begin(), w.end(), i) == w.end()) w.push_back(i);
                    }
                    insist(op, "inserting a cell", [&] { meshes[me]->insert(tuple(nodes, w)); }, [] {});
                    cells[me].push_back(w);
                    break;
                }
                case K_ERASE: {
                    what = "erasing a cell";
                    if (cells[me].empty()) break;
                    size_t k = (size_t) (op.b % (i64) cells[me].size());
                    auto gone = cells[me][k];
                    Op calm = op;
                    calm.fk = 0;
                    act(calm, [&] {
                        for (auto & c : meshes[me]->cells()) {
                            bool same = true;
                            for (size_t i = 0; i <= (size_t) N; ++i) same &= c.nodes()[i] == nodes[(size_t) gone[i]];
                            if (same) {
                                meshes[me]->erase(c);
                                break;
                            }
                        }
                    });
                    cells[me].erase(cells[me].begin() + (long) k);
                    break;
                }
                case K_SPACE:
                    what = "a function space";
                    if constexpr (finite) {
                        if (spaces.size() > 3 || cells[me].empty()) break;
                        Space s;
                        std::set<std::vector<int>> once;
                        // (one cell per simplex, with a positive measure)
                        for (auto & c : cells[me]) {
                            auto k = c;
                            std::sort(k.begin(), k.end());
                            double d = x[(size_t) c[1]][0] - x[(size_t) c[0]][0];
                            if constexpr (N == 2) {
                                auto &a = x[(size_t) c[0]], &b = x[(size_t) c[1]], &e = x[(size_t) c[2]];
                                d = (b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0]);
                            }
                            if (d > 0.1 && once.insert(k).second) s.cells.push_back(c);
                        }
                        if (s.cells.empty()) break;
                        insist(op, "making a function space", [&] {
                            s.s.reset();
                            s.s.reset(new space_t());
                            for (auto & c : s.cells) s.s->mesh.insert(tuple(nodes, c));
                            s.s->manifold.reset(new typename space_t::manifold_t(mito::manifolds::manifold(s.s->mesh, *cs)));
                            s.s->bc.reset(new typename space_t::bc_t(s.s->domain, s.s->f));
                            s.s->fs.reset(new typename space_t::fs_t(*s.s->manifold, *s.s->bc));
                        }, [] {});
                        for (auto & c : s.cells)
                            for (int i : c) s.dnode.insert({ i, s.s->fs->node_map().at(nodes[(size_t) i]) });
                        spaces.push_back(std::move(s));
                    }
                    break;
                case K_FIELD: {
                    what = "a field";
                    if (fields.size() > 6) break;
                    int support = finite ? (int) (op.b % 3) : (int) (op.b % 2);
                    int comps = 1 + (int) (op.c % 3);
                    if (support == 2 && spaces.empty()) break;
                    std::string name = "field" + std::to_string(op.d % 4);
                    auto as = [&]<class K, class Y>(K *, Y *) {
                        auto g = std::make_unique<Field<K, Y>>(*this);
                        g->name = name;
                        g->support = support;
                        g->components = comps;
                        if (support == 2) g->space = (int) (op.a % (i64) spaces.size());
                        insist(op, "making a field", [&] {
                            g->f.reset();
                            if constexpr (std::is_same_v<K, node_t>) g->f.emplace(dis::mesh_field<Y>(*meshes[me], name));
                            else if constexpr (std::is_same_v<K, point_t>) g->f.emplace(dis::point_field<Y>(geo::point_cloud<D>(), name));
                            else if constexpr (finite) g->f.emplace(spaces[(size_t) g->space].s->fs->template fem_field<Y>(name));
                        }, [] {});
                        std::set<int> where;
                        if (support == 0)
                            for (auto & c : cells[me]) where.insert(c.begin(), c.end());
                        else if (support == 1)
                            for (size_t i = 0; i < points.size(); ++i) where.insert((int) i);
                        else
                            for (auto & [i, _] : spaces[(size_t) g->space].dnode) where.insert(i);
                        for (int i : where) g->set(i, (double) (((u64) i * 7919 + (u64) op.d * 31) % 1000) / 8);
                        fields.push_back(std::move(g));
                    };
                    auto with = [&]<class K>(K * k) {
                        if (comps == 1) as(k, (double *) nullptr);
                        else if (comps == 2) as(k, (vec2 *) nullptr);
                        else as(k, (vec3 *) nullptr);
                    };
                    if (support == 0) with((node_t *) nullptr);
                    else if (support == 1) with((point_t *) nullptr);
                    else if constexpr (finite) with((dnode_t *) nullptr);
                    break;
                }
                case K_CHANGE:
                    what = "changing a field";
                    if (!f || f->want.empty()) break;
                    f->set(std::next(f->want.begin(), (long) (op.b % (i64) f->want.size()))->first, (double) (op.c % 1000) / 4);
                    break;
                case K_WRITER: {
                    what = "a writer";
                    if (writers.size() > 5) break;
                    int support = finite ? (int) (op.b % 3) : (int) (op.b % 2);
                    if (support == 2 && spaces.empty()) break;
                    auto w = writer(op, support, support == 2 ? (int) (op.a % (i64) spaces.size()) : (int) me, op.c % 4, false, "file" + std::to_string(op.d % 5));
                    writers.push_back(std::move(w));
                    break;
                }
                case K_RECORD: {
                    what = "recording a field";
                    if (!f) break;
                    std::vector<AnyWriter *> fit;
                    for (auto & w : writers)
                        if (w->fields && w->support == f->support && w->space == f->space) fit.push_back(w.get());
                    if (fit.empty()) break;
                    record(op, *fit[(size_t) (op.b % (i64) fit.size())], *f, op.c % 3 ? "" : "name" + std::to_string(op.d % 3));
                    break;
                }
                case K_WRITE: {
                    what = "a write";
                    if (writers.empty()) break;
                    auto & w = *writers[(size_t) (op.b % (i64) writers.size())];
                    std::string name = w.file + ".vtu";
                    disk.erase(name);
                    if (!write(op, w, 0, 1)) {
                        Op again = op;
                        again.fk = 0;
                        if (!write(again, w, 0, 1)) fail("I05/not-usable", "a write fails although the fault is over");
                    }
                    disk[name] = w.model;
                    break;
                }
                case K_PARALLEL: {
                    what = "a parallel write";
                    int support = finite ? (int) (op.b % 3) : (int) (op.b % 2);
                    if (support == 2 && spaces.empty()) break;
                    std::string base = "job" + std::to_string(op.d % 3);
                    Rng r((u64) op.c);
                    std::vector<std::unique_ptr<AnyWriter>> team;
                    std::vector<int> todo;
                    for (int i = 0; i < ranks; ++i) {
                        Op calm = op;
                        calm.fk = 0;
                        team.push_back(writer(calm, support, support == 2 ? (int) (r.below((i64) spaces.size())) : i, r.chance(0.8), true, base));
                        for (auto & g : fields)
                            if (team.back()->fields && g->support == support && g->space == team.back()->space && covers(*g, *team.back())) record(calm, *team.back(), *g, "");
                        todo.push_back(i);
                    }
                    for (int i = 0; i < ranks; ++i) disk.erase(base + "_" + std::to_string(i) + ".vtu");
                    v.disk.erase(base + ".pvtu");
                    // the processes in some order; one that failed tries again later
                    bool tried = false;
                    while (!todo.empty()) {
                        size_t k = (size_t) r.below((i64) todo.size());
                        Op mine = op;
                        if (tried) mine.fk = 0;
                        tried = true;
                        if (!write(mine, *team[(size_t) todo[k]], todo[k], ranks)) continue;
                        todo.erase(todo.begin() + (long) k);
                    }
                    auto it = v.disk.find(base + ".pvtu");
                    if (it == v.disk.end() || !it->second.summary) fail("I04/summary", "there is no summary of the pieces");
                    if (it->second.pieces.size() != (size_t) ranks) fail("I04/summary", "the summary lists %zu pieces of %d", it->second.pieces.size(), ranks);
                    for (int i = 0; i < ranks; ++i) {
                        if (it->second.pieces[(size_t) i] != base + "_" + std::to_string(i) + ".vtu") fail("I04/summary", "piece %d is said to be in '%s'", i, it->second.pieces[(size_t) i].c_str());
                        disk[it->second.pieces[(size_t) i]] = team[(size_t) i]->model;
                    }
                    if (ranks > 1) probe("parallel write");
                    break;
                }
                case K_DROP:
                    what = "letting go of a writer";
                    if (!writers.empty()) writers.erase(writers.begin() + (long) (op.b % (i64) writers.size()));
                    else if (f) fields.erase(fields.begin() + (long) (op.a % (i64) fields.size()));
                    break;
                }
                verify(what);
                u64 h = hcomb(nodes.size(), hcomb(points.size(), v.disk.size()));
                for (auto & c : cells) h = hcomb(h, c.size());
                for (auto & w : writers) h = hcomb(h, hcomb(w->model.x.size(), w->model.arrays.size()));
                state(h);
                log("%s: %zu nodes, %zu fields, %zu writers, %zu files", what, nodes.size(), fields.size(), writers.size(), v.disk.size());
            }
            at(step);
            writers.clear();
            fields.clear();
            Sut in;
            spaces.clear();
            meshes.clear();
            nodes.clear();
            points.clear();
            cs.reset();
        }
    };

    void gen_any(Rng & r, Plan & p, int tier, bool faults)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(9);
        p.cfg["ranks"] = r.below(4);
        p.cfg["coincide"] = r.chance(0.3);
        Swarm sw(r, { { K_NODE, 3 }, { K_CELL, 4 }, { K_ERASE, 0.7 }, { K_LOOSE, 1 }, { K_SPACE, 0.7 }, { K_FIELD, 2 }, { K_CHANGE, 1.5 }, { K_WRITER, 2 }, { K_RECORD, 4 }, { K_WRITE, 2.5 }, { K_PARALLEL, 0.7 }, { K_DROP, 0.7 } },
                 { K_NODE, K_CELL, K_WRITER, K_WRITE });
        Scheduler sc(r, 4);
        i64 n = r.range(12, tier ? 160 : 70), first = 5, more = 0;
        if (r.chance(0.03)) {
            // a run with many nodes and cells
            p.cfg["large"] = 1;
            first = r.range(60, 200);
            more = r.range(40, 250);
            n += first + more;
        }
        double rate = r.pick({ 10, 30, 60 }) / 100.0;
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), i < first ? (i64) (first > 5 && r.chance(0.2) ? K_LOOSE : K_NODE) : i < first + more ? (i64) K_CELL : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (faults && r.chance(rate)) {
                o.fk = (o.kind == K_WRITE || o.kind == K_PARALLEL) && r.chance(0.7) ? F_IO : r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, r.pick({ 3, 10, 40 }));
            }
            p.ops.push_back(o);
        }
    }
    void gen(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, false); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, true); }
    template <class cell_t, class coord_t, int P = 0>
    void with(const Plan & p)
    {
        World<cell_t, coord_t, P> w;
        w.run(p);
    }
    void run(const Plan & p)
    {
        start_memory(p);
        using c1 = geo::coordinates_t<1, geo::CARTESIAN>;
        using c2 = geo::coordinates_t<2, geo::CARTESIAN>;
        using c3 = geo::coordinates_t<3, geo::CARTESIAN>;
        using polar = geo::coordinates_t<2, geo::POLAR>;
        using spherical = geo::coordinates_t<3, geo::SPHERICAL>;
        switch (p.get("kind") % 9) {
        case 0: return with<geo::triangle_t<2>, c2, 1>(p);
        case 1: return with<geo::triangle_t<2>, c2, 2>(p);
        case 2: return with<geo::segment_t<1>, c1, 1>(p);
        case 3: return with<geo::tetrahedron_t<3>, c3>(p);
        case 4: return with<geo::triangle_t<3>, c3>(p);
        case 5: return with<geo::segment_t<3>, c3>(p);
        case 6: return with<geo::segment_t<2>, c2>(p);
        case 7: return with<geo::triangle_t<2>, polar>(p);
        default: return with<geo::tetrahedron_t<3>, spherical>(p);
        }
    }
    Registrar r1("vtk", gen, run);
    Registrar r2("vtk_faults", gen_faults, run);
}    // namespace
