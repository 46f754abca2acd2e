// The Python module, in an interpreter of its own: programs that build coordinate systems, meshes,
// manifolds, integrators and fields, let go of them in any order, and call back and forth. The model
// is what each object was built from; integrals of quadratic polynomials are exact.
// (No header of mito here: the module is a translation unit of its own.)
#include "../sim/sim.h"

#include <array>
#include <cmath>
#include <pybind11/pybind11.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace sim;
namespace py = pybind11;
extern "C" PyObject * PyInit_mito();

namespace {
    enum { K_CS, K_MESH, K_MANIFOLD, K_INTEGRATOR, K_FIELD, K_EVAL, K_INTEGRATE, K_DROP, K_INDEX, K_BADFILE, K_BADARGS, K_COLLECT, K_COPY };

    const char * PROGRAM = R"(
import mito, gc
class Poly:
    """a polynomial; can raise, answer nonsense, or do something else first"""
    def __init__(self, c):
        self.c = c
        self.n = 0
        self.fail_at = 0
        self.nonsense_at = 0
        self.before = None
        self.kept = []
    def __call__(self, x):
        self.n += 1
        if self.n == self.fail_at:
            raise KeyError('injected')
        if self.n == self.nonsense_at:
            return 'nonsense'
        if self.before is not None:
            b, self.before = self.before, None
            b()
        if len(self.kept) < 3:
            self.kept.append((x, x[0], x[1]))
        c, a, b = self.c, x[0], x[1]
        return c[0] + c[1] * a + c[2] * b + c[3] * a * a + c[4] * a * b + c[5] * b * b
    def remembers(self):
        return all(x[0] == a and x[1] == b for x, a, b in self.kept)
class Poly3(Poly):
    def __call__(self, x):
        self.n += 1
        if self.n == self.fail_at:
            raise KeyError('injected')
        c = self.c
        return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[2]
def each(x):
    return [v for v in x]
)";
    PyObject * globals_ = nullptr;
    void start_python()
    {
        PyImport_AppendInittab("mito", PyInit_mito);
        PyConfig c;
        PyConfig_InitIsolatedConfig(&c);
        c.site_import = 0;
        c.install_signal_handlers = 0;
        c.use_hash_seed = 1;
        c.hash_seed = 0;
        c.write_bytecode = 0;
        PyStatus s = Py_InitializeFromConfig(&c);
        PyConfig_Clear(&c);
        if (PyStatus_Exception(s)) {
            std::fprintf(stderr, "no interpreter: %s\n", s.err_msg ? s.err_msg : "?");
            std::exit(2);
        }
        globals_ = PyDict_New();
        PyDict_SetItemString(globals_, "__builtins__", PyEval_GetBuiltins());
        PyObject * r = PyRun_String(PROGRAM, Py_file_input, globals_, globals_);
        if (!r) {
            PyErr_Print();
            std::exit(2);
        }
        Py_DECREF(r);
    }

    // a rectangle cut into triangles
    struct Sketch {
        std::vector<std::array<double, 2>> x;
        std::vector<std::array<int, 3>> cells;
    };
    Sketch sketch(u64 seed, int n)
    {
        Rng r(seed);
        Sketch b;
        int m = 1 + (int) r.below(n);
        for (int j = 0; j <= m; ++j)
            for (int i = 0; i <= n; ++i) b.x.push_back({ 4.0 * i, 4.0 * j });
        for (int j = 0; j < m; ++j)
            for (int i = 0; i < n; ++i) {
                int q = i + (n + 1) * j;
                b.cells.push_back({ q, q + 1, q + n + 2 });
                b.cells.push_back({ q, q + n + 2, q + n + 1 });
            }
        for (size_t i = 0; i < b.cells.size(); ++i) std::swap(b.cells[i], b.cells[i + (size_t) r.below((i64) (b.cells.size() - i))]);
        return b;
    }

    struct Thing {
        int kind;
        py::object ref;                // gone once the program lets go of it
        py::object watch, watch2;      // weak references to it (and to its callback)
        int a = -1, b = -1;            // what it was built from
        Sketch mesh;
        double c[6] = { 0, 0, 0, 0, 0, 0 };
        bool broken = false;
    };
    struct Program {
        std::vector<Thing> all;
        py::object mito;

        static py::object get(const char * name) { return py::reinterpret_borrow<py::object>(PyDict_GetItemString(globals_, name)); }

        // what the call raised, or ""
        template <class F>
        std::string call(const Op & op, F && f)
        {
            std::string raised;
            Op calm = op;
            calm.fk = 0;
            Outcome o = act(calm, [&] {
                try {
                    f();
                } catch (py::error_already_set & e) {
                    Host h;
                    raised = ((PyTypeObject *) e.type().ptr())->tp_name;
                }
            });
            if (!o.ok) fail("P02/escaped", "an exception left the interpreter: %s", o.what.c_str());
            return raised;
        }
        std::vector<int> live(int kind)
        {
            std::vector<int> v;
            for (size_t i = 0; i < all.size(); ++i)
                if (all[i].kind == kind && all[i].ref) v.push_back((int) i);
            return v;
        }
        int choose(int kind, i64 k)
        {
            auto v = live(kind);
            return v.empty() ? -1 : v[(size_t) (k % (i64) v.size())];
        }
        static py::tuple doubles(const double * c, size_t n)
        {
            py::tuple t(n);
            for (size_t i = 0; i < n; ++i) t[i] = py::float_(c[i]);
            return t;
        }
        static double value(const Thing & f, double x, double y) { return f.c[0] + f.c[1] * x + f.c[2] * y + f.c[3] * x * x + f.c[4] * x * y + f.c[5] * y * y; }
        // the integral of the field over the mesh, and the size of what it is summed from
        static std::pair<double, double> integral(const Thing & m, const Thing & f)
        {
            double s = 0, size = 0;
            for (auto & v : m.mesh.cells) {
                auto &p = m.mesh.x[(size_t) v[0]], &q = m.mesh.x[(size_t) v[1]], &r = m.mesh.x[(size_t) v[2]];
                double area = ((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) / 2;
                auto mid = [&](auto & a, auto & b) {
                    double w = value(f, (a[0] + b[0]) / 2, (a[1] + b[1]) / 2);
                    s += w * area / 3;
                };
                mid(p, q), mid(q, r), mid(r, p);
                for (auto * a : { &p, &q, &r })
                    for (int k = 0; k < 6; ++k) size += std::fabs(area * f.c[k]) * (1 + std::fabs((*a)[0]) + std::fabs((*a)[1])) * (1 + std::fabs((*a)[0]) + std::fabs((*a)[1]));
            }
            return { s, size };
        }
        static std::string text(const Sketch & b)
        {
            std::string s = "2\n" + std::to_string(b.x.size()) + " " + std::to_string(b.cells.size()) + " 1\n";
            char line[200];
            for (auto & x : b.x) std::snprintf(line, sizeof line, "%.17g %.17g\n", x[0], x[1]), s += line;
            for (auto & c : b.cells) std::snprintf(line, sizeof line, "3 %d %d %d 1\n", c[0] + 1, c[1] + 1, c[2] + 1), s += line;
            return s;
        }
        // a file by the name of its descriptor
        struct File {
            int fd;
            std::string name;
            explicit File(const std::string & content) : fd(memfd_create("mesh", 0)), name("/proc/self/fd/" + std::to_string(fd))
            {
                if (fd < 0 || ::write(fd, content.data(), content.size()) != (ssize_t) content.size()) std::exit(2);
            }
            ~File() { ::close(fd); }
        };
        py::object make(const char * type, py::object a) { return get("mito").attr(type)(a); }

        // put it with the others
        void put(Thing && t)
        {
            t.watch = py::weakref(t.ref);
            if (t.kind == K_FIELD) t.watch = py::weakref(t.ref.attr("field")), t.watch2 = py::weakref(t.ref.attr("poly"));
            all.push_back(std::move(t));
        }
        // after a collection of garbage: what nothing the program holds needs anymore is gone
        void released(bool everything)
        {
            std::vector<bool> needed(all.size());
            for (size_t i = all.size(); i-- > 0;) {
                if (all[i].ref && !everything) needed[i] = true;
                if (!needed[i]) continue;
                if (all[i].a >= 0) needed[(size_t) all[i].a] = true;
                if (all[i].b >= 0) needed[(size_t) all[i].b] = true;
            }
            for (size_t i = 0; i < all.size(); ++i)
                if (!needed[i])
                    for (auto * w : { &all[i].watch, &all[i].watch2 })
                        if (*w && !(*w)().is_none()) {
                            const char * names[] = { "a coordinate system", "a mesh", "a manifold", "an integrator", "a field" };
                            fail("P01/kept", "%s is never released, though nothing the program holds needs it", names[all[i].kind]);
                        }
            probe("objects nobody needs are released");
        }

        void integrate(const Op & op, int i, int f, bool twist)
        {
            auto & I = all[(size_t) i];
            auto & F = all[(size_t) f];
            auto & M = all[(size_t) all[(size_t) I.a].a];
            py::object poly = F.ref.attr("poly");
            long n0 = poly.attr("n").cast<long>();
            long quad = 3 * (long) M.mesh.cells.size();
            long at = 0;
            if (op.fk && quad) {
                at = 1 + (long) (op.fn % quad);
                poly.attr(op.c % 3 ? "fail_at" : "nonsense_at") = n0 + at;
            }
            py::object keep = I.ref, self = F.ref;
            if (twist) {
                // in the middle of it, the program lets go of everything it can
                int * dropped = new int(0);
                poly.attr("before") = py::cpp_function([this, dropped, i, f] {
                    Host h;
                    for (size_t k = 0; k < all.size(); ++k)
                        if ((int) k != f && (int) k != i && (all[k].kind == K_CS || all[k].kind == K_MESH || all[k].kind == K_MANIFOLD)) {
                            all[k].ref = py::object();
                            ++*dropped;
                        }
                    get("gc").attr("collect")();
                });
                probe("objects dropped during a call");
            }
            double got = 0;
            std::string raised = call(op, [&] { got = keep.attr("integrate")(self.attr("field")).template cast<double>(); });
            poly.attr("fail_at") = 0;
            poly.attr("nonsense_at") = 0;
            poly.attr("before") = py::none();
            if (at) {
                fault(op.c % 3 ? "callback raised" : "callback answered nonsense");
                if (raised.empty()) fail("P02/not-reported", "a callback failed and the integral is %.17g", got);
                if (op.c % 3 && raised.find("KeyError") == std::string::npos) fail("P02/replaced", "a callback raised KeyError, the integral %s", raised.c_str());
                raised = call(op, [&] { got = keep.attr("integrate")(self.attr("field")).template cast<double>(); });
            }
            if (!raised.empty()) fail("P01/refused", "an integral raised %s", raised.c_str());
            auto [want, size] = integral(M, F);
            if (!(std::fabs(got - want) <= 1e-9 * (1 + size))) fail("P01/integral", "an integral is %.17g, it should be %.17g", got, want);
            if (!poly.attr("remembers")().template cast<bool>()) fail("P01/coordinates", "coordinates kept by a callback have changed");
            if (!M.ref || !all[(size_t) I.a].ref || !all[(size_t) M.b].ref) probe("integral after its mesh was let go of");
            log("integral %.12g", got + 0.0);
        }

        void run(const Plan & p)
        {
            PyOS_AfterFork_Child();
            i64 step = -1;
            for (auto & op : p.ops) {
                at(++step);
                const char * what = "?";
                if (all.size() > 60) break;
                switch (op.kind) {
                case K_CS: {
                    what = "a coordinate system";
                    Thing t { K_CS, {} };
                    auto e = call(op, [&] { t.ref = get("mito").attr("CoordinateSystem2D")(); });
                    if (!e.empty()) fail("P01/refused", "a coordinate system cannot be made: %s", e.c_str());
                    put(std::move(t));
                    break;
                }
                case K_MESH: {
                    what = "a mesh";
                    int c = choose(K_CS, op.a);
                    if (c < 0) break;
                    Thing t { K_MESH, {} };
                    t.b = c;
                    t.mesh = sketch((u64) op.b, 1 + (int) (op.c % 3));
                    Rng r((u64) op.d);
                    for (auto & x : t.mesh.x)
                        for (auto & q : x) q += (double) r.range(-3, 3) / 4;
                    File file(text(t.mesh));
                    auto e = call(op, [&] { t.ref = get("mito").attr("SimplicialMesh2D")(file.name, all[(size_t) c].ref); });
                    if (!e.empty()) fail("P01/refused", "a mesh cannot be read: %s", e.c_str());
                    put(std::move(t));
                    break;
                }
                case K_BADFILE: {
                    what = "a damaged mesh file";
                    int c = choose(K_CS, op.a);
                    if (c < 0) break;
                    std::string s = text(sketch((u64) op.b, 1 + (int) (op.c % 2)));
                    // (cut off before the last cell begins, or not there at all)
                    size_t last = s.rfind('\n', s.size() - 2);
                    s.resize((size_t) (op.d % (i64) last));
                    File file(s);
                    py::object m;
                    std::string name = op.c % 4 ? file.name : std::string("/proc/self/fd/987654");
                    auto e = call(op, [&] { m = get("mito").attr("SimplicialMesh2D")(name, all[(size_t) c].ref); });
                    fault(op.c % 4 ? "truncated file" : "missing file");
                    if (e.empty()) fail("P02,I02/not-reported", "a damaged file was read as a mesh");
                    break;
                }
                case K_MANIFOLD: {
                    what = "a manifold";
                    int m = choose(K_MESH, op.a);
                    if (m < 0) break;
                    int c = op.b % 5 ? all[(size_t) m].b : choose(K_CS, op.c);
                    if (c < 0 || !all[(size_t) c].ref) break;
                    Thing t { K_MANIFOLD, {} };
                    t.a = m;
                    t.b = c;
                    t.broken = c != all[(size_t) m].b;    // (the points of the mesh are not in that coordinate system)
                    auto e = call(op, [&] { t.ref = get("mito").attr("ManifoldTriangle2D")(all[(size_t) m].ref, all[(size_t) c].ref); });
                    if (!e.empty() && !t.broken) fail("P01/refused", "a manifold cannot be made: %s", e.c_str());
                    if (e.empty()) put(std::move(t));
                    break;
                }
                case K_INTEGRATOR: {
                    what = "an integrator";
                    int m = choose(K_MANIFOLD, op.a);
                    if (m < 0) break;
                    Thing t { K_INTEGRATOR, {} };
                    t.a = m;
                    auto e = call(op, [&] { t.ref = get("mito").attr("GaussIntegrator2Triangle2D")(all[(size_t) m].ref); });
                    if (all[(size_t) m].broken) {
                        if (e.empty()) fail("P02/not-reported", "a manifold in a coordinate system without its points was accepted");
                        probe("points of another coordinate system refused");
                        break;
                    }
                    if (!e.empty()) fail("P01/refused", "an integrator cannot be made: %s", e.c_str());
                    put(std::move(t));
                    break;
                }
                case K_FIELD: {
                    what = "a field";
                    Thing t { K_FIELD, {} };
                    Rng r((u64) op.a);
                    for (auto & q : t.c) q = (double) r.range(-8, 8) / 4;
                    py::object holder = get("Poly")(py::none());    // only carries the two
                    auto e = call(op, [&] {
                        py::object poly = get("Poly")(doubles(t.c, 6));
                        holder.attr("poly") = poly;
                        holder.attr("field") = get("mito").attr("ScalarField2D")(poly);
                    });
                    if (!e.empty()) fail("P01/refused", "a field cannot be made: %s", e.c_str());
                    t.ref = holder;
                    put(std::move(t));
                    break;
                }
                case K_EVAL: {
                    what = "evaluating a field";
                    int f = choose(K_FIELD, op.a);
                    if (f < 0) break;
                    double x[2] = { (double) (op.b % 64) / 8, (double) (op.c % 64) / 8 };
                    double got = 0;
                    auto & F = all[(size_t) f];
                    py::object poly = F.ref.attr("poly");
                    if (op.fk) poly.attr("fail_at") = poly.attr("n").cast<long>() + 1;
                    auto e = call(op, [&] { got = F.ref.attr("field")(get("mito").attr("Coordinates2D")(doubles(x, 2))).cast<double>(); });
                    poly.attr("fail_at") = 0;
                    if (op.fk) {
                        fault("callback raised");
                        if (e.find("KeyError") == std::string::npos) fail("P02/not-reported", "a callback raised KeyError, the field %s", e.empty() ? "answered" : e.c_str());
                        break;
                    }
                    if (!e.empty()) fail("P01/refused", "a field cannot be evaluated: %s", e.c_str());
                    if (std::fabs(got - value(F, x[0], x[1])) > 1e-9 * 1e3) fail("P01/value", "a field is %.17g, it should be %.17g", got, value(F, x[0], x[1]));
                    break;
                }
                case K_INTEGRATE: {
                    what = "an integral";
                    int i = choose(K_INTEGRATOR, op.a), f = choose(K_FIELD, op.b);
                    if (i < 0 || f < 0) break;
                    integrate(op, i, f, op.d % 5 == 0);
                    break;
                }
                case K_DROP: {
                    what = "letting go of an object";
                    std::vector<size_t> v;
                    for (size_t i = 0; i < all.size(); ++i)
                        if (all[i].ref) v.push_back(i);
                    if (v.empty()) break;
                    auto & t = all[v[(size_t) (op.a % (i64) v.size())]];
                    call(op, [&] { t.ref = py::object(); });
                    break;
                }
                case K_INDEX: {
                    what = "subscripts of coordinates";
                    double x[3] = { (double) (op.b % 64) / 8, (double) (op.c % 64) / 8, (double) (op.d % 64) / 8 };
                    int D = op.a % 2 ? 3 : 2, i = (int) (op.d % 11) - 4;
                    py::object c = get("mito").attr(D == 3 ? "Coordinates3D" : "Coordinates2D")(doubles(x, (size_t) D));
                    double got = 0;
                    auto e = call(op, [&] { got = c.attr("__getitem__")(i).cast<double>(); });
                    if (i >= 0 && i < D) {
                        if (!e.empty() || got != x[i]) fail("P01/coordinates", "coordinate %d is %.17g %s, it should be %.17g", i, got, e.c_str(), x[i]);
                    } else if (i >= D) {
                        if (e.find("IndexError") == std::string::npos) fail("P02/subscript", "subscript %d of %d coordinates %s", i, D, e.empty() ? "is accepted" : e.c_str());
                        probe("subscript refused");
                    } else if (e.empty() && !(i >= -D && got == x[D + i]))
                        // (a negative subscript may count from the end, as it does in Python, or be refused)
                        fail("P02/subscript", "subscript %d of %d coordinates is accepted", i, D);
                    py::object list;
                    e = call(op, [&] { list = get("each")(c); });
                    if (!e.empty() || (int) py::len(list) != D) fail("P02/subscript", "iterating on %d coordinates %s", D, e.empty() ? "finds another number" : e.c_str());
                    for (int k = 0; k < D; ++k)
                        if (list.attr("__getitem__")(k).cast<double>() != x[k]) fail("P01/coordinates", "iterating on coordinates finds others");
                    break;
                }
                case K_BADARGS: {
                    what = "wrong arguments";
                    auto m = get("mito");
                    int i = choose(K_INTEGRATOR, op.a), c = choose(K_CS, op.b);
                    std::string e;
                    switch (op.c % 6) {
                    case 0: e = call(op, [&] { m.attr("Coordinates2D")(py::make_tuple(1.0, 2.0, 3.0)); }); break;
                    case 1: e = call(op, [&] { m.attr("Coordinates3D")(py::make_tuple(1.0)); }); break;
                    case 2: e = call(op, [&] { m.attr("ScalarField2D")(3); }); break;
                    case 3: e = call(op, [&] { m.attr("ManifoldTriangle2D")(py::none(), py::none()); }); break;
                    case 4: e = i < 0 ? "TypeError" : call(op, [&] { all[(size_t) i].ref.attr("integrate")(1.0); }); break;
                    case 5: e = c < 0 ? "TypeError" : call(op, [&] { m.attr("GaussIntegrator2Triangle2D")(all[(size_t) c].ref); }); break;
                    }
                    if (e.empty()) fail("P02/not-reported", "wrong arguments (%d) are accepted", (int) (op.c % 6));
                    probe("wrong arguments refused");
                    break;
                }
                case K_COLLECT:
                    what = "collecting garbage";
                    call(op, [&] { get("gc").attr("collect")(); });
                    released(false);
                    break;
                case K_COPY: {
                    what = "a field in three dimensions";
                    double c[6] = { (double) (op.a % 9) - 4, (double) (op.b % 9) - 4, (double) (op.c % 9) - 4, (double) (op.d % 9) - 4, 0, 0 };
                    double x[3] = { (double) (op.b % 16) / 4, (double) (op.c % 16) / 4, (double) (op.d % 16) / 4 }, got = 0;
                    auto e = call(op, [&] {
                        py::object f = get("mito").attr("ScalarField3D")(get("Poly3")(doubles(c, 6)));
                        got = f(get("mito").attr("Coordinates3D")(doubles(x, 3))).cast<double>();
                    });
                    if (!e.empty()) fail("P01/refused", "a field cannot be evaluated: %s", e.c_str());
                    if (std::fabs(got - (c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[2])) > 1e-9) fail("P01/value", "a field in three dimensions is %.17g", got);
                    break;
                }
                }
                int n = 0;
                u64 h = 0;
                for (auto & t : all) {
                    n += !!t.ref;
                    h = hcomb(h, (u64) t.kind * 2 + (t.ref ? 1 : 0));
                }
                state(h);
                log("%s: %zu objects, %d referred to", what, all.size(), n);
            }
            at(step);
            // whatever is left works
            Op calm;
            for (int i : live(K_INTEGRATOR))
                for (int f : live(K_FIELD)) integrate(calm, i, f, false);
            for (auto & t : all) call(calm, [&] { t.ref = py::object(); });
            call(calm, [&] { get("gc").attr("collect")(); });
            released(true);
            call(calm, [&] { all.clear(); });
        }
    };

    void gen_any(Rng & r, Plan & p, int tier, bool faults)
    {
        plan_memory(r, p);
        Swarm sw(r, { { K_CS, 1.5 }, { K_MESH, 3 }, { K_MANIFOLD, 4 }, { K_INTEGRATOR, 4 }, { K_FIELD, 2 }, { K_EVAL, 1 }, { K_INTEGRATE, 5 }, { K_DROP, 4 }, { K_INDEX, 1 }, { K_BADFILE, faults ? 1.0 : 0.0 }, { K_BADARGS, 0.7 }, { K_COLLECT, 0.7 }, { K_COPY, 0.5 } },
                 { K_CS, K_MESH, K_MANIFOLD, K_INTEGRATOR, K_FIELD, K_INTEGRATE });
        Scheduler sc(r, 3);
        i64 n = r.range(10, tier ? 120 : 60);
        double rate = r.pick({ 10, 30, 60 }) / 100.0;
        const i64 first[] = { K_CS, K_MESH, K_MANIFOLD, K_INTEGRATOR, K_FIELD };
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), i < 5 ? first[i] : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (faults && (o.kind == K_INTEGRATE || o.kind == K_EVAL) && r.chance(rate)) {
                o.fk = F_IO;
                o.fn = r.below(100);
            }
            p.ops.push_back(o);
        }
    }
    void gen(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, false); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, true); }
    void run(const Plan & p)
    {
        start_memory(p);
        // (never destroyed: the interpreter is not shut down either)
        auto * w = new Program();
        w->run(p);
    }
    Registrar r1("python", gen, run);
    Registrar r2("python_faults", gen_faults, run);
    struct Start {
        Start() { on_start(start_python); }
    } start_;
}    // namespace
