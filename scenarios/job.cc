// A parallel job: every rank reads the mesh from the same file, keeps its part of it, integrates over
// it and writes its piece of the output. All the ranks live in this process, each with objects of its
// own somewhere else in memory; which of them runs next is decided by the plan, and so is which of
// them fails, or dies and starts all over again. The model is the blueprint the file was written from.
#include "meshes.h"
#include <mito/simulation.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
#include <mito/functions.h>
#include <mito/fields.h>
#include <mito/discrete.h>
#include <mito/io.h>
#include <fstream>
#include <optional>
#include <sys/mman.h>
#include <unistd.h>

namespace smt = mito::io::summit;
namespace vtk = mito::io::vtk;

// ---------------------------------------------------------------- the launcher, as a rank sees it
namespace {
    struct Launcher {
        int rank = 0, size = 1;            // of the process that is running
        std::vector<int> begun, ended;     // by rank: since it was last started
        const char * misuse = nullptr;
        bool up() const { return begun[(size_t) rank] == 1 && ended[(size_t) rank] == 0; }
    } mpi;
    int metis_fault = 0, metis_calls = 0;
}
extern "C" int __wrap_MPI_Init(int *, char ***)
{
    if (mpi.begun[(size_t) mpi.rank]++) mpi.misuse = "MPI is initialized twice";
    return MPI_SUCCESS;
}
extern "C" int __wrap_MPI_Finalize()
{
    if (!mpi.up()) mpi.misuse = "MPI is finalized when it is not running";
    mpi.ended[(size_t) mpi.rank]++;
    return MPI_SUCCESS;
}
extern "C" int __wrap_MPI_Comm_rank(MPI_Comm c, int * out)
{
    if (!mpi.up()) mpi.misuse = "MPI is asked for the rank when it is not running";
    *out = c == MPI_COMM_WORLD ? mpi.rank : 0;
    return MPI_SUCCESS;
}
extern "C" int __wrap_MPI_Comm_size(MPI_Comm c, int * out)
{
    if (!mpi.up()) mpi.misuse = "MPI is asked for the size of the job when it is not running";
    *out = c == MPI_COMM_WORLD ? mpi.size : 1;
    return MPI_SUCCESS;
}
extern "C" int __real_METIS_PartMeshDual(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, idx_t *, idx_t *, idx_t *, idx_t *);
extern "C" int __wrap_METIS_PartMeshDual(idx_t * ne, idx_t * nn, idx_t * eptr, idx_t * eind, idx_t * vw, idx_t * vs, idx_t * nc, idx_t * np, real_t * tp, idx_t * opt, idx_t * cut, idx_t * ep, idx_t * npart)
{
    sim::Host h;
    ++metis_calls;
    if (metis_fault) {
        fault("partitioner-failure");
        if (metis_fault == 1) return METIS_ERROR_MEMORY;
        for (idx_t i = 0; i < *ne; ++i) ep[i] = i % 2;
        return METIS_ERROR;
    }
    return __real_METIS_PartMeshDual(ne, nn, eptr, eind, vw, vs, nc, np, tp, opt, cut, ep, npart);
}

namespace {
    // a file in memory, by a name that can be opened
    struct Paper {
        int fd = -1;
        std::string name;
        Paper(const std::string & text)
        {
            fd = memfd_create("mesh", 0);
            size_t at = 0;
            while (at < text.size()) {
                ssize_t n = ::write(fd, text.data() + at, text.size() - at);
                if (n <= 0) break;
                at += (size_t) n;
            }
            name = "/proc/self/fd/" + std::to_string(fd);
        }
        ~Paper() { ::close(fd); }
    };

    enum { K_STEP, K_NOISE, K_INTEGRATE, K_WRITE, K_AGAIN, K_REFINE, K_CRASH };
    enum { S_OFF, S_ON, S_READ, S_DONE };

    void gen_any(Rng & r, Plan & p, int tier, bool faults)
    {
        plan_memory(r, p);
        int ranks = (int) (r.chance(0.8) ? r.range(1, 5) : r.range(1, 12));
        p.cfg["ranks"] = ranks;
        p.cfg["kind"] = r.below(3);
        p.cfg["grid"] = r.chance(0.6) ? r.range(1, tier ? 8 : 6) : 0;
        p.cfg["nodes"] = r.range(5, 14);
        p.cfg["cells"] = r.range(0, 20);
        p.cfg["world"] = (i64) (r.next() & 0xffffff);
        p.cfg["mesh"] = r.below(1 << 20);
        Swarm sw(r, { { K_STEP, 5 }, { K_NOISE, 1 }, { K_INTEGRATE, 1 }, { K_WRITE, 1 }, { K_AGAIN, 0.7 }, { K_REFINE, 0.5 }, { K_CRASH, faults ? 0.7 : 0.0 } }, { K_STEP });
        Scheduler sc(r, ranks);
        double rate = r.pick({ 10, 30, 60 }) / 100.0;
        i64 n = r.range(3, tier ? 60 : 30);
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (faults && o.kind != K_CRASH && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM, F_IO, F_IO });
                o.fn = o.fk == F_IO ? r.range(1, 3) : r.range(1, r.pick({ 5, 40, 300 }));
            }
            p.ops.push_back(o);
        }
    }
    void gen(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, false); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, true); }

    template <int N, int D>
    struct Job {
        using W = World<N, D>;
        using cell_t = typename W::cell_t;
        using mesh_type = typename W::mesh_type;
        using coord_t = typename W::coord_t;
        using cs_t = typename W::cs_t;
        static constexpr bool flat = N == D;

        Blueprint<D> b;
        std::map<vec<D>, int> number;               // of a node, by its place
        std::map<std::vector<int>, int> whole;      // how often a cell is in the file
        vec<D> a;
        double c0 = 0;
        std::string text;
        std::unique_ptr<Paper> file;
        Rng world { 1 };

        struct Rank {
            int stage = S_OFF;
            std::unique_ptr<mito::simulation::simulation_t> simulation;
            std::unique_ptr<cs_t> cs;
            std::unique_ptr<mesh_type> mesh, part;
            std::vector<top::simplex_t<1>> mine;      // noise
            std::map<std::vector<int>, int> cells;    // of the part
            std::optional<double> integral;
            bool written = false;
        };
        std::vector<Rank> ranks;
        int size() const { return (int) ranks.size(); }

        double value(const vec<D> & x) const
        {
            double s = c0;
            for (size_t k = 0; k < D; ++k) s += a[k] * x[k];
            return s;
        }
        // the integral of the square of that over a cell
        double share(const std::vector<int> & v) const
        {
            std::vector<vec<D>> x;
            double sum = 0, squares = 0, fact = 1;
            for (int i : v) {
                x.push_back(b.x[(size_t) i]);
                double l = value(x.back());
                sum += l;
                squares += l * l;
            }
            for (int k = 2; k <= N; ++k) fact *= k;
            return wedge<D>(x)[0] / fact * (sum * sum + squares) / ((N + 1) * (N + 2));
        }
        double scale(const std::map<std::vector<int>, int> & cells) const
        {
            double s = 1;
            for (auto & [v, n] : cells) {
                double big = 1;
                for (int i : v) big = std::max(big, std::fabs(value(b.x[(size_t) i])));
                std::vector<vec<D>> x;
                for (int i : v) x.push_back(b.x[(size_t) i]);
                s += n * std::fabs(wedge<D>(x)[0]) * (1 + big * big);
            }
            return s;
        }
        // the cells of a mesh, as the numbers of their nodes
        std::map<std::vector<int>, int> cells_of(const mesh_type & m, const cs_t & cs, int rank)
        {
            std::map<std::vector<int>, int> out;
            int n = 0;
            for (auto & c : m.cells()) {
                std::vector<int> v;
                for (auto & node : c.nodes()) {
                    auto it = number.find(components(cs.coordinates(node->point())));
                    if (it == number.end()) fail("J01/foreign-node", "rank %d of %d has a node where the mesh has none", rank, size());
                    v.push_back(it->second);
                }
                out[v]++;
                ++n;
            }
            if (n != m.nCells()) fail("J01/count", "rank %d of %d counts %d cells, %d are there", rank, size(), m.nCells(), n);
            return out;
        }
        // do it, under the fault of {op} if it has one; and again without it if that failed
        // (unless the fault was one of the library's, and nobody was told)
        template <class F>
        void attempt(const Op & op, int rank, const char * what, const std::function<int()> & external, F && f)
        {
            Outcome o = act(op, f);
            int ext = external();
            if (ext && o.ok) fail("J01/failure-unreported", "%s failed on rank %d of %d, and nobody was told", what, rank, size());
            if (o.ok) return;
            // (a stream that cannot have memory is a stream that cannot be read)
            if (!ext && !o.fired) fail("J01/refused", "%s is refused on rank %d of %d: %s", what, rank, size(), o.bad_alloc ? "bad_alloc" : o.what.c_str());
            probe("a step failed and was repeated");
            Op again = op;
            again.fk = 0;
            o = act(again, f);
            external();
            if (!o.ok) fail("J01/not-usable", "%s still fails on rank %d of %d although the fault is over: %s", what, rank, size(), o.what.c_str());
        }
        void behave(int rank)
        {
            if (mpi.misuse) fail("J01/mpi", "on rank %d of %d %s", rank, size(), mpi.misuse);
        }
        void step(const Op & op, int i)
        {
            auto & r = ranks[(size_t) i];
            auto none = [] { return 0; };
            switch (r.stage) {
            case S_OFF: {
                Op calm = op;
                calm.fk = 0;
                mpi.begun[(size_t) i] = mpi.ended[(size_t) i] = 0;
                attempt(calm, i, "starting", none, [&] { r.simulation.reset(new mito::simulation::simulation_t()); });
                behave(i);
                if (!mpi.up()) fail("J01/mpi", "rank %d of %d is on its way without MPI", i, size());
                if (r.simulation->context().n_tasks() != size()) fail("J01/size", "rank %d of %d believes the job has %d ranks", i, size(), r.simulation->context().n_tasks());
                if (r.simulation->context().task_id() != i) fail("J01/rank", "rank %d of %d believes it is rank %d", i, size(), r.simulation->context().task_id());
                if (r.simulation->clock() != 0.0) fail("J01/clock", "the simulation of rank %d starts at time %g", i, r.simulation->clock());
                r.stage = S_ON;
                break;
            }
            case S_ON: {
                // a file that is cut short is no mesh; nor is one that is not there
                int harm = op.fk == F_IO && !b.cells.empty() ? (int) op.fn : 0;
                std::unique_ptr<Paper> torn;
                if (harm) {
                    size_t last = text.rfind('\n', text.size() - 2) + 1;
                    torn.reset(new Paper(harm == 1 ? std::string() : text.substr(0, (size_t) ((u64) op.c * 7919 % last))));
                    fault(harm == 1 ? "empty-file" : "torn-file");
                }
                std::string name = torn ? torn->name : file->name;
                attempt(op, i, "reading the mesh", [&] { int h = harm; harm = 0, name = file->name; return h; }, [&] {
                    r.cs.reset(new cs_t());
                    std::ifstream in(name);
                    r.mesh.reset(new mesh_type(smt::reader<cell_t>(in, *r.cs)));
                });
                if (cells_of(*r.mesh, *r.cs, i) != whole) fail("J01/read", "rank %d of %d does not have the mesh that is in the file", i, size());
                r.stage = S_READ;
                break;
            }
            case S_READ: {
                partition(op, i, r.part);
                r.cells = cells_of(*r.part, *r.cs, i);
                for (auto & [v, n] : r.cells)
                    if (!whole.count(v)) fail("J01/foreign-cell", "rank %d of %d has a cell that is not in the mesh", i, size());
                meet(i);
                r.stage = S_DONE;
                if (op.d % 2) {
                    // (which needs the whole no more)
                    Sut in;
                    r.mesh.reset();
                }
                break;
            }
            case S_DONE:
                if (!r.integral) integrate(op, i);
                else if (!r.written) write(op, i);
                break;
            }
        }
        void partition(const Op & op, int i, std::unique_ptr<mesh_type> & into)
        {
            auto & r = ranks[(size_t) i];
            metis_calls = 0;
            metis_fault = op.fk == F_IO ? (int) op.fn : 0;
            attempt(op, i, "partitioning", [&] { int f = metis_fault && metis_calls; metis_fault = 0; return f; }, [&] {
                into.reset(new mesh_type(msh::metis::partition(*r.mesh, r.simulation->context().n_tasks(), r.simulation->context().task_id())));
            });
        }
        // no two ranks have a cell more often than there are of it
        void meet(int i)
        {
            std::map<std::vector<int>, int> all;
            bool everyone = true;
            for (auto & r : ranks) {
                everyone &= !r.cells.empty() || r.part;
                for (auto & [v, n] : r.cells) all[v] += n;
            }
            for (auto & [v, n] : all)
                if (n > whole.at(v)) fail("J01/twice", "rank %d of %d has a cell that another rank has as well", i, size());
        }
        void integrate(const Op & op, int i)
        {
            auto & r = ranks[(size_t) i];
            if constexpr (flat) {
                auto a0 = a;
                double c = c0, got = 0;
                auto f = mito::functions::function([a0, c](const coord_t & x) {
                    auto y = components(x);
                    double s = c;
                    for (size_t k = 0; k < D; ++k) s += a0[k] * y[k];
                    return s * s;
                });
                attempt(op, i, "integrating", [] { return 0; }, [&] {
                    auto manifold = mito::manifolds::manifold(*r.part, *r.cs);
                    auto I = mito::quadrature::integrator<mito::quadrature::GAUSS, 2>(manifold);
                    got = (double) I.integrate(f);
                });
                double want = 0;
                for (auto & [v, n] : r.cells) want += n * share(v);
                if (!(std::fabs(got - want) <= 1e-11 * scale(r.cells))) fail("J01/integral", "the integral over the part of rank %d of %d is %.17g instead of %.17g", i, size(), got, want);
                r.integral = got;
            } else
                r.integral = 0;
        }
        void refine(const Op & op, int i)
        {
            auto & r = ranks[(size_t) i];
            if constexpr (flat) {
                if (r.cells.size() > 60) return;
                std::unique_ptr<mesh_type> fine;
                double got = 0;
                auto a0 = a;
                double c = c0;
                auto f = mito::functions::function([a0, c](const coord_t & x) {
                    auto y = components(x);
                    double s = c;
                    for (size_t k = 0; k < D; ++k) s += a0[k] * y[k];
                    return s * s;
                });
                attempt(op, i, "refining", [] { return 0; }, [&] {
                    fine.reset(new mesh_type(msh::tetra(*r.part, *r.cs, 1)));
                    auto manifold = mito::manifolds::manifold(*fine, *r.cs);
                    got = (double) mito::quadrature::integrator<mito::quadrature::GAUSS, 2>(manifold).integrate(f);
                });
                double want = 0;
                for (auto & [v, n] : r.cells) want += n * share(v);
                if (!(std::fabs(got - want) <= 1e-11 * scale(r.cells))) fail("J01/refined", "the integral over the refined part of rank %d of %d is %.17g instead of %.17g", i, size(), got, want);
                probe("part refined");
                Sut in;
                fine.reset();
            }
        }
        // nodes of a cell up to an even permutation
        static std::vector<int> canonical(std::vector<int> v)
        {
            int s = parity(v);
            std::sort(v.begin(), v.end());
            v.push_back(s);
            return v;
        }
        void write(const Op & op, int i)
        {
            auto & r = ranks[(size_t) i];
            auto & v = vtkstub::world();
            v.rank = i;
            v.size = size();
            v.writes = v.fired = 0;
            v.fail_at = op.fk == F_IO ? (int) (1 + op.fn % (i ? 2 : 3)) : 0;
            v.torn = op.d % 2;
            auto a0 = a;
            double c = c0;
            auto f = mito::functions::function([a0, c](const coord_t & x) -> mito::tensor::scalar_t {
                auto y = components(x);
                double s = c;
                for (size_t k = 0; k < D; ++k) s += a0[k] * y[k];
                return s;
            });
            auto external = [&] {
                int n = v.fired;
                if (n) fault(v.torn ? "torn-write" : "failed-write", n);
                v.fired = v.fail_at = 0;
                return n;
            };
            attempt(op, i, "writing", external, [&] {
                auto field = mito::discrete::mesh_field(*r.part, *r.cs, f, "temperature");
                auto w = vtk::parallel_field_writer("job", *r.part, *r.cs);
                w.record(field);
                w.write();
            });
            r.written = true;
            check_piece(i);
        }
        void check_piece(int i)
        {
            auto & r = ranks[(size_t) i];
            auto & v = vtkstub::world();
            if (v.misuse.size()) fail("J01/misuse", "rank %d of %d: %s", i, size(), v.misuse.c_str());
            auto it = v.disk.find("job_" + std::to_string(i) + ".vtu");
            if (it == v.disk.end()) fail("J01/missing", "the piece of rank %d of %d is not there", i, size());
            auto & c = it->second;
            std::set<int> nodes, seen;
            std::map<std::vector<int>, int> cells;
            for (auto & [w, n] : r.cells) {
                nodes.insert(w.begin(), w.end());
                cells[canonical(w)] += n;
            }
            std::vector<int> of;
            auto arr = c.arrays.find("temperature");
            if (c.arrays.size() != 1 || arr == c.arrays.end() || arr->second.components != 1 || arr->second.values.size() != c.points.size()) fail("J01/field", "the piece of rank %d of %d does not have the field", i, size());
            for (size_t k = 0; k < c.points.size(); ++k) {
                vec<D> x;
                for (size_t d = 0; d < D; ++d) x[d] = c.points[k][d];
                auto at = number.find(x);
                if (at == number.end() || !nodes.count(at->second)) fail("J01/place", "the piece of rank %d of %d has a point that its part does not have", i, size());
                if (!seen.insert(at->second).second) fail("J01/place", "the piece of rank %d of %d has a point twice", i, size());
                of.push_back(at->second);
                if (!(std::fabs(arr->second.values[k] - value(x)) <= 1e-9)) fail("J01/value", "the piece of rank %d of %d has another value at a point than the field", i, size());
            }
            if (seen.size() != nodes.size()) fail("J01/place", "the piece of rank %d of %d has %zu points of %zu", i, size(), seen.size(), nodes.size());
            for (auto & [type, ids] : c.cells) {
                std::vector<int> w;
                for (auto id : ids) {
                    if (id < 0 || id >= (vtkIdType) of.size()) fail("J01/cell", "the piece of rank %d of %d has a cell on a point that is not there", i, size());
                    w.push_back(of[(size_t) id]);
                }
                auto at = cells.find(canonical(w));
                if (type != (N == 2 ? VTK_TRIANGLE : VTK_TETRA) || at == cells.end()) fail("J01/cell", "the piece of rank %d of %d has a cell that its part does not have", i, size());
                if (!--at->second) cells.erase(at);
            }
            if (!cells.empty()) fail("J01/cell", "the piece of rank %d of %d lacks cells", i, size());
        }
        // what is left when a process is gone: the files
        void crash(const Op & op, int i)
        {
            auto & r = ranks[(size_t) i];
            if (r.stage == S_DONE && op.a % 2) {
                // in the middle of a write
                auto & v = vtkstub::world();
                v.rank = i;
                v.size = size();
                v.writes = v.fired = 0;
                v.fail_at = (int) (1 + op.b % (i ? 2 : 3));
                v.torn = op.c % 2;
                act(Op {}, [&] {
                    auto w = vtk::parallel_grid_writer("job", *r.part, *r.cs);
                    w.write();
                });
                if (v.fired) fault("crash-during-write");
                v.fired = v.fail_at = 0;
            }
            stop(i);
            r = Rank {};
            fault("rank-crash");
        }
        void stop(int i)
        {
            auto & r = ranks[(size_t) i];
            mpi.rank = i;
            Sut in;
            r.mine.clear();
            if (r.cells.size() % 2) r.mesh.reset(), r.part.reset();
            else r.part.reset(), r.mesh.reset();
            r.cs.reset();
            bool was = (bool) r.simulation;
            r.simulation.reset();
            Host h;
            behave(i);
            if (was && (mpi.begun[(size_t) i] != 1 || mpi.ended[(size_t) i] != 1)) fail("J01/mpi", "rank %d of %d is gone, and MPI was initialized %d times and finalized %d times", i, size(), mpi.begun[(size_t) i], mpi.ended[(size_t) i]);
        }

        void run(const Plan & p)
        {
            world = Rng((u64) p.get("world"));
            int g = (int) p.get("grid");
            if (N == 3) g = std::min(g, 3);
            b = g ? grid<N, D>((u64) p.get("mesh"), g) : blueprint<N, D>((u64) p.get("mesh"), (int) p.get("nodes", 5), (int) p.get("cells", 1));
            // (not every node of a blueprint has a cell)
            for (size_t i = 0; i < b.x.size(); ++i) number[b.x[i]] = (int) i;
            for (auto & v : b.cells) whole[v]++;
            Rng r((u64) p.get("mesh") ^ 0x52);
            for (auto & q : a) q = (double) r.range(-4, 4) / 4;
            c0 = (double) r.range(-4, 4) / 2;
            text = std::to_string(D) + "\n" + std::to_string(b.x.size()) + " " + std::to_string(b.cells.size()) + " 1\n";
            char buf[64];
            for (auto & x : b.x) {
                for (double q : x) {
                    snprintf(buf, sizeof buf, "%.17g ", q);
                    text += buf;
                }
                text += "\n";
            }
            for (auto & v : b.cells) {
                text += std::to_string(N + 1);
                for (int i : v) text += " " + std::to_string(i + 1);
                text += " 1\n";
            }
            file.reset(new Paper(text));
            vtkstub::world() = {};
            mpi = {};
            mpi.size = (int) std::max<i64>(1, p.get("ranks", 1));
            mpi.begun.assign((size_t) mpi.size, 0);
            mpi.ended = mpi.begun;
            ranks.resize((size_t) mpi.size);
            {
                static bool quiet = false;
                if (!quiet) journal::info_t("mito.simulation.context").deactivate();
                quiet = true;
            }
            i64 step_no = 0;
            for (auto & op : p.ops) {
                at(step_no++);
                int i = (int) (op.task % size());
                mpi.rank = i;
                auto & rk = ranks[(size_t) i];
                switch (op.kind) {
                case K_STEP: step(op, i); break;
                case K_NOISE: {
                    // each rank has a past of its own
                    Sut in;
                    scatter(world, (int) world.below(30));
                    if (op.a % 3 == 0) {
                        // it may have partitioned something else
                        Blueprint<D> other = b;
                        std::vector<typename W::node_t> nodes;
                        cs_t cs;
                        {
                            Host h;
                            std::reverse(other.cells.begin(), other.cells.end());
                            for (auto & x : other.x) std::swap(x[0], x[1]);
                        }
                        auto m = W::build(other, cs, nodes, nullptr);
                        mesh_type q(msh::metis::partition(*m, op.b % 2 ? size() : size() + 1, i));
                    }
                    for (int k = (int) world.below(4); k > 0; --k) rk.mine.push_back(top::segment({ top::vertex(), top::vertex() }));
                    break;
                }
                case K_INTEGRATE:
                    if (rk.stage == S_DONE) integrate(op, i);
                    break;
                case K_WRITE:
                    if (rk.stage == S_DONE) write(op, i);
                    break;
                case K_AGAIN:
                    // asked again, it gets the same part
                    if (rk.stage == S_DONE && rk.mesh) {
                        std::unique_ptr<mesh_type> twin;
                        partition(op, i, twin);
                        if (cells_of(*twin, *rk.cs, i) != rk.cells) fail("J01/fickle", "rank %d of %d gets another part when it asks again", i, size());
                        probe("partitioned again");
                        Sut in;
                        if (op.c % 2) rk.part.swap(twin);
                        twin.reset();
                    }
                    break;
                case K_REFINE:
                    if (rk.stage == S_DONE) refine(op, i);
                    break;
                case K_CRASH:
                    if (rk.stage == S_OFF) break;
                    crash(op, i);
                    probe("a rank started again");
                    break;
                }
                u64 h = hcomb(digest(b.cells, b.x), (u64) size());
                for (auto & q : ranks) h = hcomb(h, (u64) (q.stage * 4 + (bool) q.integral * 2 + q.written));
                state(h);
                log("%lld rank %d/%d k%lld stage %d cells %zu", (long long) step_no, i, size(), (long long) op.kind, rk.stage, rk.cells.size());
            }
            at(step_no);
            // those that are not done yet finish their work
            bool more = true;
            for (int round = 0; more; ++round) {
                if (round > 8) fail("J01/stuck", "a rank does not finish");
                more = false;
                for (int i = 0; i < size(); ++i) {
                    auto & q = ranks[(size_t) i];
                    if (q.stage == S_DONE && q.integral && q.written) continue;
                    more = true;
                    mpi.rank = i;
                    step(Op {}, i);
                }
            }
            std::map<std::vector<int>, int> all;
            double sum = 0, want = 0;
            size_t biggest = 0;
            for (auto & q : ranks) {
                sum += *q.integral;
                biggest = std::max(biggest, q.cells.size());
                for (auto & [v, n] : q.cells) all[v] += n;
            }
            if (all != whole) fail("J01/nobody", "the %d ranks together do not have every cell of the mesh of %zu", size(), b.cells.size());
            if constexpr (flat) {
                for (auto & [v, n] : whole) want += n * share(v);
                if (!(std::fabs(sum - want) <= 1e-11 * scale(whole))) fail("J01/sum", "the integrals of %d ranks sum to %.17g instead of %.17g", size(), sum, want);
            }
            for (int i = 0; i < size(); ++i) check_piece(i);
            auto & v = vtkstub::world();
            auto it = v.disk.find("job.pvtu");
            if (it == v.disk.end() || !it->second.summary) fail("J01/summary", "there is no summary of the pieces");
            if (it->second.pieces.size() != (size_t) size()) fail("J01/summary", "the summary lists %zu pieces of %d", it->second.pieces.size(), size());
            for (int i = 0; i < size(); ++i)
                if (it->second.pieces[(size_t) i] != "job_" + std::to_string(i) + ".vtu") fail("J01/summary", "piece %d is said to be in '%s'", i, it->second.pieces[(size_t) i].c_str());
            if (v.disk.size() != (size_t) size() + 1) fail("J01/files", "the job left %zu files behind instead of %d", v.disk.size(), size() + 1);
            if (size() > 1 && biggest < b.cells.size()) probe("a job of several ranks that have cells");
            for (int i = 0; i < size(); ++i) stop(i);
            ranks.clear();
        }
    };
    template <int N, int D>
    void with(const Plan & p)
    {
        Job<N, D> j;
        j.run(p);
    }
    void run(const Plan & p)
    {
        start_memory(p);
        switch (p.get("kind") % 3) {
        case 0: return with<2, 2>(p);
        case 1: return with<3, 3>(p);
        default: return with<2, 3>(p);
        }
    }
    Registrar r1("job", gen, run);
    Registrar r2("job_faults", gen_faults, run);
}
