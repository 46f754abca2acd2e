// Linear systems and Krylov solvers: clients create, fill, solve, re-create and destroy several
// systems through mito's interface to PETSc, which can be made to fail at every call. The oracle is a
// dense matrix and a dense elimination.
#include "petsc_seam.h"

#include <mito/matrix_solvers.h>
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <vector>

using namespace sim;
using seam::st;
namespace ptc = mito::matrix_solvers::petsc;

namespace {
    enum : i64 { K_CREATE, K_SOLVER, K_DESTROY, K_DESTROY_LS, K_INS_M, K_ADD_M, K_INS_B, K_ADD_B, K_FILL, K_ASSEMBLE, K_SOLVE, K_GET, K_OPTIONS, K_QUERY, K_ZERO, K_TUNED };
    enum : i64 { FILL_ANY, FILL_SYM, FILL_NEG };

    struct Choice {
        std::string text, ksp, pc;
        double rtol = 0;
        int maxit = 0;
        double scale = 0, atol = 0, dtol = 0;
        int restart = 0;
        bool modified = false;
    };
    // (only what the text sets; 0 and "" stand for: left alone)
    const Choice CHOICES[] = {
        { "-ksp_type preonly -pc_type lu", "preonly", "lu", 0, 0, 0 },
        { "-ksp_type gmres -ksp_rtol 1e-11 -pc_type jacobi", "gmres", "jacobi", 1e-11, 0, 0 },
        { "-ksp_type cg -pc_type jacobi -ksp_rtol 1e-10", "cg", "jacobi", 1e-10, 0, 0 },
        { "-ksp_rtol 1e-9", "", "", 1e-9, 0, 0 },
        { "-pc_type none -ksp_max_it 500", "", "none", 0, 500, 0 },
        { "-ksp_type bcgs -pc_type none -ksp_rtol 1e-10", "bcgs", "none", 1e-10, 0, 0 },
        { "-ksp_type richardson -pc_type none -ksp_richardson_scale -0.125 -ksp_rtol 1e-8", "richardson", "none", 1e-8, 0, -0.125 },
        { "-ksp_richardson_scale -0.125 -pc_type none -ksp_type richardson -ksp_rtol 1e-8", "richardson", "none", 1e-8, 0, -0.125 },
        { "  -ksp_max_it   300  -ksp_rtol 1e-8 ", "", "", 1e-8, 300, 0 },
        { "-ksp_gmres_restart 5 -ksp_type gmres", "gmres", "", 0, 0, 0, 0, 0, 5 },
        { "-ksp_type gmres -ksp_max_it 1 -pc_type none -ksp_rtol 1e-13", "gmres", "none", 1e-13, 1, 0 },
        { "-ksp_type preonly -pc_type cholesky", "preonly", "cholesky", 0, 0, 0 },
        { "-ksp_type gmres -pc_type jacobi -ksp_max_it 1000", "gmres", "jacobi", 0, 1000, 0 },
    };
    const int N_CHOICES = sizeof(CHOICES) / sizeof(*CHOICES);
    // options made up word by word: in any order, some of them with the same values, some without one,
    // some given twice (the last one counts)
    Choice made_up(u64 seed)
    {
        Rng r(seed);
        Choice c;
        std::vector<std::pair<std::string, std::string>> words;
        auto pick = [&](std::initializer_list<const char *> v) { return std::string(v.begin()[r.below((i64) v.size())]); };
        i64 n = r.range(1, 7);
        for (i64 i = 0; i < n; ++i) {
            std::string v;
            switch (r.below(10)) {
            case 0: words.push_back({ "-ksp_type", c.ksp = pick({ "gmres", "gmres", "cg", "bcgs", "preonly", "richardson" }) }); break;
            case 1: words.push_back({ "-pc_type", c.pc = pick({ "none", "jacobi", "lu", "cholesky" }) }); break;
            case 2: words.push_back({ "-ksp_rtol", v = pick({ "1e-8", "1e-9", "1e-10", "0.000000001" }) }), c.rtol = std::stod(v); break;
            case 3: words.push_back({ "-ksp_atol", v = pick({ "1e-9", "1e-10", "1e-14" }) }), c.atol = std::stod(v); break;
            case 4: words.push_back({ "-ksp_divtol", v = pick({ "300", "1e6", "1e8" }) }), c.dtol = std::stod(v); break;
            case 5: words.push_back({ "-ksp_max_it", v = pick({ "5", "30", "300", "500" }) }), c.maxit = std::stoi(v); break;
            case 6: words.push_back({ "-ksp_gmres_restart", v = pick({ "5", "30", "300" }) }), c.restart = std::stoi(v); break;
            case 7: words.push_back({ "-ksp_richardson_scale", v = pick({ "-0.125", "-0.125", "-1.25e-1", "0.125" }) }), c.scale = std::stod(v); break;
            case 8: words.push_back({ "-ksp_gmres_modifiedgramschmidt", "" }), c.modified = true; break;
            default: words.push_back({ "-ksp_monitor_cancel", "" });
            }
        }
        auto blank = [&] { c.text += std::string(r.chance(0.8) ? 1 : (size_t) r.range(1, 3), ' '); };
        if (r.chance(0.1)) blank();
        for (size_t i = 0; i < words.size(); ++i) {
            if (i) blank();
            c.text += words[i].first;
            if (!words[i].second.empty()) blank(), c.text += words[i].second;
        }
        if (r.chance(0.1)) blank();
        return c;
    }
    const char * LABELS[] = { "sys", "sys1", "sys_ksp", "a", "other.system" };

    struct Sys {
        std::unique_ptr<ptc::linear_system_t> ls;
        std::unique_ptr<ptc::ksp_t> ksp;
        bool made = false, solver = false;    // created
        int n = 0;
        std::vector<double> A, b, x;
        bool solved = false;
        bool stale = false;              // the system was re-created under the solver
        std::set<std::pair<int, int>> pattern;    // entries that exist
        // what the options say
        bool opt_known = true;           // no call that sets options has failed half way
        bool opt_before = false;         // this label was given options before this solver was created
        std::string want_ksp, want_pc;
        double want_rtol = 0, scale = 0;
        int want_maxit = 0, want_restart = 0;
        double want_atol = 0, want_dtol = 0;
        bool want_modified = false;
        bool failed = false, odd = false;    // a solve failed; the method was changed after that (PETSc's
                                         // preconditioners keep the reason of a failure when their type changes)
        std::set<void *> mine;           // objects of the library owned
        double & a(int i, int j) { return A[(size_t) (i * n + j)]; }
    };

    double dyadic(i64 v, i64 lo, i64 hi) { return (double) (lo + (v % (hi - lo + 1) + (hi - lo + 1)) % (hi - lo + 1)) / 8.0; }

    std::vector<double> dense_solve(std::vector<double> A, std::vector<double> b, int n)
    {
        for (int k = 0; k < n; ++k) {
            int p = k;
            for (int i = k; i < n; ++i)
                if (std::fabs(A[i * n + k]) > std::fabs(A[p * n + k])) p = i;
            for (int j = 0; j < n; ++j) std::swap(A[k * n + j], A[p * n + j]);
            std::swap(b[k], b[p]);
            for (int i = k + 1; i < n; ++i) {
                double f = A[i * n + k] / A[k * n + k];
                for (int j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j];
                b[i] -= f * b[k];
            }
        }
        for (int k = n - 1; k >= 0; --k) {
            for (int j = k + 1; j < n; ++j) b[k] -= A[k * n + j] * b[j];
            b[k] /= A[k * n + k];
        }
        return b;
    }

    void gen(Rng & r, Plan & p, int tier, bool faults)
    {
        plan_memory(r, p);
        int clients = (int) r.range(1, 3), systems = (int) r.range(1, 4);
        p.cfg["systems"] = systems;
        p.cfg["max_n"] = r.chance(0.02) ? r.pick({ 40, 80 }) : r.pick({ 1, 3, 6, 10 });
        p.cfg["zero"] = r.chance(0.15);
        Swarm sw(r, { { K_CREATE, 1.5 }, { K_SOLVER, 1.5 }, { K_DESTROY, 0.8 }, { K_DESTROY_LS, 0.3 }, { K_INS_M, 3 }, { K_ADD_M, 3 }, { K_INS_B, 2 }, { K_ADD_B, 2 },
                      { K_FILL, 2 }, { K_ASSEMBLE, 1 }, { K_SOLVE, 4 }, { K_GET, 1 }, { K_OPTIONS, 1.5 }, { K_QUERY, 0.3 }, { K_ZERO, 0.5 }, { K_TUNED, 0.4 } },
                 { K_CREATE, K_SOLVER, K_FILL, K_SOLVE });
        Scheduler sc(r, clients);
        double rate = faults ? (double) r.pick({ 5, 15, 40 }) / 100 : 0;
        int n = (int) r.range(8, tier ? 90 : 45);
        // every client starts by setting its systems up
        for (int i = 0; i < n; ++i) {
            Op o;
            o.task = sc.next(r);
            o.kind = i < 2 * systems ? (i % 2 ? K_SOLVER : K_CREATE) : sw.pick(r);
            o.a = i < 2 * systems ? i / 2 : r.below(1000);
            o.b = r.below(1000);
            o.c = r.below(1000);
            o.d = r.below(1 << 20);
            if (r.chance(rate)) {
                if (r.chance(0.85)) {
                    o.fk = F_IO;
                    i64 k = o.kind == K_SOLVE && r.chance(0.4) ? seam::PF_DIVERGE : r.pick({ seam::PF_ONCE, seam::PF_ONCE, seam::PF_FROM });
                    o.fn = k + 8 * r.range(1, r.pick({ 2, 4, 12, 40 }));
                } else {
                    o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                    o.fn = r.range(1, 6);
                }
            }
            p.ops.push_back(o);
        }
    }
    void gen_solve(Rng & r, Plan & p, int tier) { gen(r, p, tier, false); }
    void gen_solve_faults(Rng & r, Plan & p, int tier) { gen(r, p, tier, true); }

    struct Result {
        bool ok;
        i64 lib = 0, mem = 0;    // faults that fired
        std::string what;
    };
    template <class F>
    Result call(const Op & op, F && f)
    {
        seam::Arm arm(op);
        Outcome o = act(op, f);
        Result r { o.ok, st().fired, o.fired, o.what };
        if (o.bad_alloc && !o.fired) fail("exception/bad-alloc", "memory exhaustion was reported although there was none");
        return r;
    }

    struct World {
        const Plan & p;
        std::vector<Sys> S;
        std::set<void *> before;
        explicit World(const Plan & plan) : p(plan), S((size_t) plan.get("systems", 1)) {}

        void note_live()
        {
            before.clear();
            for (auto & [k, v] : st().live) before.insert(k);
        }
        void adopt(Sys & s)
        {
            for (auto & [k, v] : st().live)
                if (!before.count(k)) s.mine.insert(k);
            for (auto it = s.mine.begin(); it != s.mine.end();) it = st().live.count(*it) ? std::next(it) : s.mine.erase(it);
        }
        // the others' objects must not have been touched
        void others_intact(const Sys & s, const char * what)
        {
            for (auto & t : S)
                if (&t != &s)
                    for (auto * m : t.mine)
                        if (!st().live.count(m)) fail("S03,S01/foreign-destroy", "%s one system destroys an object of another one", what);
        }
        void verdict(const Result & r, const char * what, bool must_succeed = true, bool scaled = false)
        {
            if (r.ok && r.lib) fail("S02/error-swallowed", "%s: an error of the library was not reported", what);
            if (!r.ok && !r.lib && !r.mem && must_succeed) fail(scaled ? "S01,S02,S04/refused" : "S01,S02/refused", "%s threw: %s", what, r.what.c_str());
            if (!r.ok) probe(r.mem ? "memory-error-reported" : "library-error-reported");
        }
        void wipe(Sys & s, int n)
        {
            s.n = n;
            s.A.assign((size_t) (n * n), 0);
            s.b.assign((size_t) n, 0);
            s.pattern.clear();
            s.solved = false;
        }
        void create(Sys & s, int i, int n, const Op & op)
        {
            if (!s.ls) {
                Op q = op;
                q.fk = 0;
                Sut in;
                if (i % 2) s.ls.reset(new ptc::linear_system_t(ptc::linear_system(LABELS[i])));
                else s.ls = std::make_unique<ptc::linear_system_t>(LABELS[i]);
                if (i % 2) s.ksp.reset(new ptc::ksp_t(ptc::ksp(*s.ls)));
                else s.ksp = std::make_unique<ptc::ksp_t>(*s.ls);
            }
            bool again = s.made;
            note_live();
            Result r = call(op, [&] { s.ls->create(n); });
            adopt(s);
            verdict(r, again ? "re-creating a system" : "creating a system");
            others_intact(s, "creating");
            size_t others = 0;
            for (auto * m : s.mine) others += std::string(st().live.at(m)) != "solver";
            if (r.ok) {
                if (others != 3) fail(others > 3 ? "S03/leak" : "S03/missing", "after a system was %s it owns %zu vectors and matrices", again ? "created again" : "created", others);
                if (again) probe("re-created");
                s.made = true;
                s.stale = s.solver;
                wipe(s, n);
                if (s.ls->n_equations() != n) fail("S01/size", "a system of %d equations says it has %d", n, s.ls->n_equations());
            } else {
                probe("failed-creation");
                bool swept = true;
                if (others) {
                    // is everything gone at least once the system is destroyed?
                    if (op.fk != F_IO || op.fn % 8 == seam::PF_FROM || !again) swept = false;
                }
                if (!swept) fail("S03/leak", "a failed creation of a system leaves %zu vectors and matrices behind", others);
                destroy_ls(s, Op {});
            }
        }
        void gone(Sys & s)
        {
            s.made = false;
            wipe(s, 0);
        }
        void forget_solver(Sys & s)
        {
            s.solver = s.stale = false;
        }
        void destroy_ls(Sys & s, const Op & op)
        {
            if (!s.ls) return;
            note_live();
            Result r = call(op, [&] { s.ls->destroy(); });
            adopt(s);
            verdict(r, "destroying a system");
            others_intact(s, "destroying");
            if (!r.ok) {
                probe("failed-destruction");
                size_t left = 0;
                for (auto * m : s.mine) left += std::string(st().live.at(m)) != "solver";
                if (left > (size_t) r.lib) fail("S03/leak", "a failed destruction of a system leaves %zu vectors and matrices behind, %lld of them could not be destroyed", left, (long long) r.lib);
                return destroy_ls(s, Op {});
            }
            for (auto * m : s.mine)
                if (std::string(st().live.at(m)) != "solver") fail("S03/leak", "a %s outlives the destruction of its system", st().live.at(m));
            gone(s);
            s.stale = s.solver;
        }
        void destroy(Sys & s, const Op & op)
        {
            if (!s.ls) return;
            note_live();
            Result r = call(op, [&] { s.ksp->destroy(); });
            adopt(s);
            verdict(r, "destroying a solver");
            others_intact(s, "destroying");
            if (!r.ok) {
                probe("failed-destruction");
                if (s.mine.size() > (size_t) r.lib) fail("S03/leak", "a failed destruction of a solver leaves %zu objects behind, %lld of them could not be destroyed", s.mine.size(), (long long) r.lib);
                return destroy(s, Op {});
            }
            if (!s.mine.empty()) fail("S03/leak", "a %s outlives the destruction of its solver", st().live.at(*s.mine.begin()));
            gone(s);
            forget_solver(s);
            probe("destroyed");
        }
        void create_solver(Sys & s, const Op & op)
        {
            if (!s.made) return;
            bool again = s.solver;
            note_live();
            Result r = call(op, [&] { s.ksp->create(); });
            adopt(s);
            verdict(r, again ? "re-creating a solver" : "creating a solver");
            others_intact(s, "creating");
            size_t solvers = 0;
            for (auto * m : s.mine) solvers += std::string(st().live.at(m)) == "solver";
            if (r.ok) {
                if (solvers != 1) fail(solvers > 1 ? "S03/leak" : "S03/missing", "after a solver was %s, %zu are alive", again ? "created again" : "created", solvers);
                s.solver = true;
                s.stale = s.failed = s.odd = false;
                s.opt_before = s.opt_before || !s.want_ksp.empty() || !s.want_pc.empty() || s.want_rtol || s.want_maxit || s.scale || s.want_atol || s.want_dtol || s.want_restart || s.want_modified || !s.opt_known;
                s.want_ksp = s.want_pc = "";
                s.want_rtol = s.scale = s.want_maxit = s.want_restart = 0;
                s.want_atol = s.want_dtol = 0;
                s.want_modified = false;
                s.opt_known = true;
            } else {
                probe("failed-creation");
                if (solvers && !(again && op.fk == F_IO && op.fn % 8 == seam::PF_ONCE)) fail("S03/leak", "a failed creation of a solver leaves %zu of them behind", solvers);
                // a solver that could not be created is not there; starting over must work
                s.opt_known = false;
                forget_solver(s);
                if (solvers) destroy(s, Op {});
            }
        }
        bool dominant(Sys & s)
        {
            for (int i = 0; i < s.n; ++i) {
                double sum = 0;
                for (int j = 0; j < s.n; ++j)
                    if (j != i) sum += std::fabs(s.a(i, j));
                if (std::fabs(s.a(i, i)) < 2 * sum || s.a(i, i) == 0) return false;
            }
            return true;
        }
        // does the chosen method converge on this system, and to what?
        bool sane(Sys & s, double & tol, bool & limited)
        {
            limited = s.want_maxit && s.want_maxit < 100;
            if (!s.opt_known || s.opt_before || s.odd || !dominant(s)) return false;
            bool sym = true, pos = true, eight = true;
            for (int i = 0; i < s.n; ++i)
                for (int j = 0; j < s.n; ++j) sym = sym && s.a(i, j) == s.a(j, i);
            for (int i = 0; i < s.n; ++i) pos = pos && s.a(i, i) > 0, eight = eight && s.a(i, i) == -8;
            auto & k = s.want_ksp;
            auto & c = s.want_pc;
            tol = std::max(1e-9, 1e3 * (s.want_rtol ? s.want_rtol : 1e-5));
            if (k == "preonly") {
                tol = 1e-9;
                limited = false;
                return c == "lu" || (c == "cholesky" && sym);
            }
            if (c == "cholesky" && !sym) return false;
            if (k == "cg") return sym && pos && c != "lu" && c != "cholesky" && c != "";
            if (k == "richardson") return eight && s.scale == -0.125 && c == "none";
            return k == "" || k == "gmres" || k == "bcgs";
        }
        void solve(Sys & s, const Op & op)
        {
            if (!s.made || !s.solver) return;
            double tol = 0;
            bool limited = false, fine = sane(s, tol, limited);
            int solves = st().solves;
            Result r = call(op, [&] { s.ksp->solve(); });
            if (s.stale) probe("system-re-created-under-solver");
            verdict(r, "solving", fine && !limited, s.want_ksp == "richardson");
            bool reached = st().solves > solves;
            if (reached) {
                // what was handed to the library is what the clients put in
                if (st().size != s.n) fail("S01/size", "a system of %d equations is solved with %d", s.n, (int) st().size);
                for (int i = 0; i < s.n; ++i) {
                    for (int j = 0; j < s.n; ++j)
                        if (st().A[(size_t) (i * s.n + j)] != s.a(i, j))
                            fail("S01/matrix", "entry %d,%d of the matrix is %g instead of %g", i, j, st().A[(size_t) (i * s.n + j)], s.a(i, j));
                    if (st().b[(size_t) i] != s.b[(size_t) i]) fail("S01/rhs", "entry %d of the right hand side is %g instead of %g", i, st().b[(size_t) i], s.b[(size_t) i]);
                }
                check_options(s);
            }
            if (r.ok && !reached) fail("S01/not-solved", "a solve returned without the system having been solved");
            log("solve n=%d: %s%s", s.n, r.ok ? "ok" : "error", fine ? "" : " (any outcome)");
            if (!r.ok) {
                s.solved = false;
                s.failed = true;
                // (a fault within the clean-up after a failed factorization)
                s.odd = s.odd || (r.lib && !fine);
                probe("solve-error-reported");
                return;
            }
            s.x = st().x;
            s.solved = true;
            if (fine) {
                auto x = dense_solve(s.A, s.b, s.n);
                double norm = 0, err = 0;
                for (int i = 0; i < s.n; ++i) norm = std::max(norm, std::fabs(x[(size_t) i])), err = std::max(err, std::fabs(x[(size_t) i] - s.x[(size_t) i]));
                if (!(err <= tol * norm + 1e-13 + 1e3 * s.want_atol)) fail(s.want_ksp == "richardson" ? "S01,S02,S04/solution" : "S01,S02/solution", "the solution of a system of %d equations is off by %g (its norm is %g)", s.n, err, norm);
                probe("solved");
                if (s.failed) probe("solved-after-a-failure");
                if (limited) probe("solved-within-one-iteration");
            }
            get(s, Op {});
        }
        void check_options(Sys & s)
        {
            if (!s.opt_known) return;
            auto & t = st();
            bool defaults = !s.opt_before;
            auto differs = [](double a, double b) { return std::fabs(a - b) > 1e-12 * std::fabs(b); };
            if (s.want_ksp != "" ? t.ksp_type != s.want_ksp : defaults && t.ksp_type != "" && t.ksp_type != "gmres")
                fail("S04/method", "the method is %s instead of %s", t.ksp_type.c_str(), s.want_ksp != "" ? s.want_ksp.c_str() : "the default");
            if (s.want_pc != "" ? t.pc_type != s.want_pc : defaults && t.pc_type != "" && t.pc_type != "ilu" && t.pc_type != "icc")
                fail("S04/preconditioner", "the preconditioner is %s instead of %s", t.pc_type.c_str(), s.want_pc != "" ? s.want_pc.c_str() : "the default");
            if (t.ksp_type == "preonly") return;    // (a method without iterations does not look at the rest)
            if (s.want_rtol ? differs(t.rtol, s.want_rtol) : defaults && differs(t.rtol, 1e-5)) fail("S04/tolerance", "the tolerance is %g instead of %g", t.rtol, s.want_rtol ? s.want_rtol : 1e-5);
            if (s.want_maxit ? t.maxit != s.want_maxit : defaults && t.maxit != 10000)
                fail("S04/iterations", "the limit of the iterations is %d instead of %d", (int) t.maxit, s.want_maxit ? s.want_maxit : 10000);
            if (s.want_atol ? differs(t.atol, s.want_atol) : defaults && differs(t.atol, 1e-50)) fail("S04/absolute-tolerance", "the absolute tolerance is %g instead of %g", t.atol, s.want_atol ? s.want_atol : 1e-50);
            if (s.want_dtol && differs(t.dtol, s.want_dtol)) fail("S04/divergence-tolerance", "the divergence tolerance is %g instead of %g", t.dtol, s.want_dtol);
            if (t.ksp_type == "gmres" && (s.want_restart ? t.restart != s.want_restart : defaults && t.restart != 30))
                fail("S04/restart", "the method restarts after %d iterations instead of %d", t.restart, s.want_restart ? s.want_restart : 30);
            if (t.ksp_type == "gmres" && (s.want_modified ? !t.modified : defaults && t.modified)) fail("S04/orthogonalization", "the orthogonalization is %s", t.modified ? "the modified one, although nobody asked for it" : "the default, instead of the modified one");
        }
        void get(Sys & s, const Op & op)
        {
            if (!s.made) return;
            std::vector<double> x((size_t) s.n, -7.5);
            Result r = call(op, [&] { s.ls->get_solution(x); });
            verdict(r, "reading the solution");
            if (r.ok && s.solved)
                for (int i = 0; i < s.n; ++i)
                    if (x[(size_t) i] != s.x[(size_t) i] && !(std::isnan(x[(size_t) i]) && std::isnan(s.x[(size_t) i])))
                        fail("S01/read-back", "entry %d of the solution is %g, it was read as %g", i, s.x[(size_t) i], x[(size_t) i]);
        }
        void set(Sys & s, bool matrix, bool add, int i, int j, double v, const Op & op)
        {
            double & cell = matrix ? s.a(i, j) : s.b[(size_t) i];
            Result r = call(op, [&] {
                if (matrix && add) s.ls->add_matrix_value(i, j, v);
                else if (matrix) s.ls->insert_matrix_value(i, j, v);
                else if (add) s.ls->add_rhs_value(i, v);
                else s.ls->insert_rhs_value(i, v);
            });
            verdict(r, matrix ? "setting an entry of the matrix" : "setting an entry of the right hand side");
            cell = add ? cell + v : v;
            if (matrix) s.pattern.insert({ i, j });
            // the fault is over: the value can be set
            if (!r.ok) {
                probe("retried");
                double want = cell;
                set(s, matrix, false, i, j, want, Op {});
            }
        }
        void options(Sys & s, const Choice & c, const Op & op)
        {
            if (!s.solver) return;
            s.odd = s.odd || s.failed;
            Result r = call(op, [&] { s.ksp->set_options(c.text); });
            verdict(r, "setting options");
            if (!r.ok) return options(s, c, Op {});
            if (!c.ksp.empty()) s.want_ksp = c.ksp;
            if (!c.pc.empty()) s.want_pc = c.pc;
            if (c.atol) s.want_atol = c.atol;
            if (c.dtol) s.want_dtol = c.dtol;
            if (c.restart) s.want_restart = c.restart;
            if (c.modified) s.want_modified = true;
            if (c.rtol) s.want_rtol = c.rtol;
            if (c.maxit) s.want_maxit = c.maxit;
            if (c.scale) s.scale = c.scale;
        }
    };

    void run(const Plan & p)
    {
        start_memory(p);
        World w(p);
        i64 max_n = p.get("max_n", 3);
        int step = 0;
        for (auto & op : p.ops) {
            at(step++);
            int i = (int) (op.a % (i64) w.S.size());
            Sys & s = w.S[(size_t) i];
            bool ready = s.made && s.n > 0;
            int row = ready ? (int) (op.b % s.n) : 0, col = ready ? (int) (op.c % s.n) : 0;
            switch (op.kind) {
            case K_CREATE: w.create(s, i, p.get("zero") && op.c % 4 == 0 ? 0 : (int) (1 + op.b % max_n), op); break;
            case K_SOLVER: w.create_solver(s, op); break;
            case K_DESTROY: w.destroy(s, op); break;
            case K_DESTROY_LS: w.destroy_ls(s, op); break;
            case K_INS_M:
            case K_ADD_M:
                if (ready) w.set(s, true, op.kind == K_ADD_M, row, col, dyadic(op.d, -16, 16), op);
                break;
            case K_INS_B:
            case K_ADD_B:
                if (ready) w.set(s, false, op.kind == K_ADD_B, row, 0, dyadic(op.d, -64, 64), op);
                break;
            case K_FILL: {
                if (!ready) break;
                i64 how = op.b % 3;
                bool insert = op.c % 2, rows_last = op.c % 4 / 2, once = false;
                Rng r((u64) op.d);
                auto put = [&](int i, int j, double v) {
                    // the fault hits one of the calls
                    Op o = op;
                    if (once || r.chance(0.7)) o.fk = 0;
                    else once = true;
                    // added on top of what is there, or inserted in its place
                    w.set(s, true, !insert, i, j, insert ? v : v - s.a(i, j), o);
                };
                for (int a = 0; a < s.n; ++a)
                    for (int b = 0; b < s.n; ++b) {
                        int i = rows_last ? b : a, j = rows_last ? a : b;
                        if (i == j) put(i, j, how == FILL_NEG ? -8 : 4.0 * s.n + (double) r.below(8));
                        else {
                            i64 lo = std::min(i, j), hi = std::max(i, j);
                            u64 h = how == FILL_SYM ? mix((u64) (op.d + lo * 1000 + hi)) : r.next();
                            double v = (double) (h % 3) - 1;
                            if (how == FILL_NEG) v /= 8;
                            if (v != 0 || s.a(i, j) != 0) put(i, j, v);
                        }
                    }
                for (int i = 0; i < s.n; ++i) w.set(s, false, false, i, 0, dyadic((i64) r.below(1 << 20), -64, 64), Op {});
                if (w.dominant(s)) probe("dominant");
                break;
            }
            case K_ASSEMBLE: {
                if (!s.made) break;
                Result r = call(op, [&] { s.ls->assemble(); });
                w.verdict(r, "assembling");
                break;
            }
            case K_ZERO: {
                if (!s.made) break;
                Result r = call(op, [&] { s.ls->zero(); });
                w.verdict(r, "zeroing");
                if (!r.ok) {
                    probe("retried");
                    Result again = call(Op {}, [&] { s.ls->zero(); });
                    w.verdict(again, "zeroing once the fault is over");
                }
                std::fill(s.A.begin(), s.A.end(), 0.);
                std::fill(s.b.begin(), s.b.end(), 0.);
                probe("zeroed");
                break;
            }
            case K_TUNED: {
                // a method that converges only with the options it is given
                if (!ready || !s.solver) break;
                Rng r((u64) op.d);
                for (int i = 0; i < s.n; ++i)
                    for (int j = 0; j < s.n; ++j) {
                        double v = i == j ? -8 : ((double) r.below(3) - 1) / 8;
                        if (v != s.a(i, j)) w.set(s, true, false, i, j, v, Op {});
                    }
                for (int i = 0; i < s.n; ++i) w.set(s, false, false, i, 0, dyadic((i64) r.below(1 << 20), -64, 64), Op {});
                w.options(s, CHOICES[6 + op.b % 2], op);
                w.solve(s, Op {});
                probe("tuned");
                break;
            }
            case K_SOLVE: w.solve(s, op); break;
            case K_GET: w.get(s, op); break;
            case K_OPTIONS: w.options(s, op.c % 2 ? made_up((u64) op.d) : CHOICES[op.b % N_CHOICES], op); break;
            case K_QUERY:
                if (s.ls) {
                    Sut in;
                    bool same = s.ls->label() == LABELS[i];
                    Host h;
                    if (!same) fail("S01/label", "a system goes by another label than its own");
                    if (s.made && s.ls->n_equations() != s.n) fail("S01/size", "a system of %d equations says it has %d", s.n, s.ls->n_equations());
                    did();
                }
                break;
            }
            u64 h = 7;
            for (auto & t : w.S) h = hcomb(h, (u64) (t.made + 2 * t.solver + 4 * t.solved + 8 * t.stale + 16 * t.n + 1024 * (int) t.pattern.size()));
            state(h);
            log("%lld sys %d n %d", (long long) op.kind, i, s.n);
        }
        at(step);
        for (auto & s : w.S) {
            // faults are over: what is there can be solved
            if (s.made && s.solver) w.solve(s, Op {});
            w.destroy(s, Op {});
        }
        if (!st().live.empty()) fail("S03/leak", "a %s is still alive after everything was destroyed", st().live.begin()->second);
        {
            Sut in;
            for (auto & s : w.S) s.ksp.reset(), s.ls.reset();
        }
        if (!st().live.empty()) fail("S03/leak", "a %s is still alive at the end", st().live.begin()->second);
    }
    void start()
    {
        setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);    // (no daemon)
        mito::petsc::initialize();
        PetscPopSignalHandler();    // (it would turn a crash into a wait)
        PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
    }
    struct Start {
        Start() { on_start(start); }
    } start_;
    Registrar r1("solve", gen_solve, run);
    Registrar r2("solve_faults", gen_solve_faults, run);
}
