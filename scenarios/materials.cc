// Materials: points of several materials are loaded along histories of their own, by several clients;
// materials are copied, replaced and let go of on the way. The model keeps what energy a material has by
// its formula and what work was done on it; the stress is integrated along the history.
#include "../sim/sim.h"

#include <mito/materials.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <optional>

using namespace sim;
namespace mat = mito::materials;
namespace ten = mito::tensor;

namespace {
    using M3 = std::array<std::array<double, 3>, 3>;
    using matrix_t = ten::matrix_t<3>;
    enum { K_MAKE, K_DROP, K_COPY, K_LOAD, K_BACK, K_TURN, K_REST, K_TANGENTS, K_TEST };

    M3 one() { return { { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } }; }
    M3 times(const M3 & a, const M3 & b)
    {
        M3 c {};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k) c[i][j] += a[i][k] * b[k][j];
        return c;
    }
    double det(const M3 & a)
    {
        return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    }
    double norm(const M3 & a)
    {
        double s = 0;
        for (auto & r : a)
            for (double q : r) s += q * q;
        return std::sqrt(s);
    }
    M3 mix(const M3 & a, const M3 & b, double t)
    {
        M3 c;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) c[i][j] = a[i][j] + t * (b[i][j] - a[i][j]);
        return c;
    }
    matrix_t given(const M3 & a)
    {
        matrix_t m;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) m[{ i, j }] = a[i][j];
        return m;
    }
    template <class T>
    M3 taken(const T & m)
    {
        M3 a;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) a[i][j] = m[{ i, j }];
        return a;
    }
    using C4 = std::array<double, 81>;

    // what a material is by its definition
    struct Law {
        bool gent = false;
        double rho = 1, a = 1, b = 1, c = 1;    // E, nu or kappa, mu, Jm
        double trC(const M3 & F) const { return norm(F) * norm(F); }
        // is that a deformation the material can bear?
        bool bears(const M3 & F) const
        {
            if (!gent) return true;
            return det(F) > 0.4 && det(F) < 2.2 && trC(F) - 3 < 0.6 * c;
        }
        double energy(const M3 & F) const
        {
            if (!gent) {
                double lambda = a * b / ((1 + b) * (1 - 2 * b)), mu = a / (2 * (1 + b)), tr = 0, sq = 0;
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j) {
                        double e = (F[i][j] + F[j][i]) / 2 - (i == j);
                        sq += e * e;
                        if (i == j) tr += e;
                    }
                return lambda / 2 * tr * tr + mu * sq;
            }
            double J = det(F), A = (J * J - 1) / 2 - std::log(J);
            return -b / 2 * (c * std::log(1 - (trC(F) - 3) / c) + 2 * std::log(J)) + a / 2 * A * A * A * A;
        }
        M3 stress(const M3 & F) const
        {
            M3 P {};
            if (!gent) {
                double lambda = a * b / ((1 + b) * (1 - 2 * b)), mu = a / (2 * (1 + b)), tr = F[0][0] + F[1][1] + F[2][2] - 3;
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j) P[i][j] = mu * (F[i][j] + F[j][i] - 2 * (i == j)) + (i == j ? lambda * tr : 0);
                return P;
            }
            double J = det(F), A = (J * J - 1) / 2 - std::log(J), B = c / (c - trC(F) + 3), q = 2 * a * A * A * A * (J * J - 1) - b;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    // (the cofactor of F over its determinant)
                    int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
                    P[i][j] = b * B * F[i][j] + q * (F[i1][j1] * F[i2][j2] - F[i1][j2] * F[i2][j1]) / J;
                }
            return P;
        }
        double stiffness() const { return gent ? a + b + 1 : a / (1 - 2 * b) + 1; }
    };
    struct Any {
        Law law;
        M3 F = one();
        double stored = 0, work = 0;    // since it was made
        double path = 0;                // how far it has come
        virtual ~Any() = default;
        virtual double energy(const M3 &) const = 0;
        virtual M3 stress(const M3 &) const = 0;
        virtual C4 tangents(const M3 &) const = 0;
        virtual std::pair<bool, bool> test(const M3 &, double pert, double tol, int how) const = 0;
        virtual Any * copy() const = 0;
        virtual void become(const Any &) = 0;
    };
    // a material somebody got wrong
    template <class T>
    struct Wrong {
        using deformation_gradient_type = typename T::deformation_gradient_type;
        using stress_type = typename T::stress_type;
        using tangents_type = typename T::tangents_type;
        static constexpr int D = 3;
        const T & right;
        double p = 1, c = 1;
        auto energy(const deformation_gradient_type & F) const { return right.energy(F); }
        stress_type stress(const deformation_gradient_type & F) const { return p * right.stress(F); }
        tangents_type tangents(const deformation_gradient_type & F) const { return c * right.tangents(F); }
    };
    template <class T>
    struct Real : Any {
        T m;
        Real(const T & x) : m(x) {}
        double energy(const M3 & F) const override { return (double) m.energy(given(F)); }
        M3 stress(const M3 & F) const override { return taken(m.stress(given(F))); }
        C4 tangents(const M3 & F) const override
        {
            auto C = m.tangents(given(F));
            C4 out;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    for (int k = 0; k < 3; ++k)
                        for (int l = 0; l < 3; ++l) out[(size_t) (27 * i + 9 * j + 3 * k + l)] = C[{ i, j, k, l }];
            return out;
        }
        Any * copy() const override { return new Real(*this); }
        void become(const Any & o) override { m = static_cast<const Real &>(o).m; }
        std::pair<bool, bool> test(const M3 & F, double pert, double tol, int how) const override
        {
            auto run = [&](const auto & t) { return std::pair<bool, bool> { t.test_stress(given(F)), t.test_tangents(given(F)) }; };
            if (how == 0) return run(mat::consistency_test(m, pert, tol));
            if (how == 1) {
                // from numbers that are not around for long
                auto t = mat::consistency_test(m, pert * 1.0, tol * 1.0);
                double noise[16];
                for (auto & q : noise) q = -1 + (double) (&q - noise);
                asm volatile("" : : "r"(noise) : "memory");
                return run(t);
            }
            if (how == 2) {
                // of a material that is not around for long either
                auto t = mat::consistency_test(T(m), pert, tol);
                return run(t);
            }
            Wrong<T> w { m, how == 3 ? 1.01 : 1.0, how == 4 ? 1.01 : how == 3 ? 1.01 : 1.0 };
            return run(mat::consistency_test(w, pert, tol));
        }
    };

    constexpr double GX[5] = { 0.046910077030668, 0.230765344947158, 0.5, 0.769234655052842, 0.953089922969332 },
                     GW[5] = { 0.118463442528095, 0.239314335249683, 0.284444444444444, 0.239314335249683, 0.118463442528095 };

    void gen(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        Swarm sw(r, { { K_MAKE, 1 }, { K_DROP, 0.5 }, { K_COPY, 0.7 }, { K_LOAD, 5 }, { K_BACK, 1 }, { K_TURN, 1.5 }, { K_REST, 1 }, { K_TANGENTS, 2 }, { K_TEST, 1 } }, { K_MAKE, K_LOAD });
        Scheduler sc(r, 3);
        i64 n = r.range(4, tier ? 80 : 30);
        for (i64 i = 0; i < n; ++i) p.ops.push_back({ sc.next(r), i == 0 ? (i64) K_MAKE : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) });
    }

    struct World {
        std::vector<std::unique_ptr<Any>> pts;
        static double close(double scale, double len) { return 1e-9 * scale * (1 + len); }

        void energy_is(Any & m, const char * what)
        {
            double got = 0;
            M3 F = m.F;
            M3 P {};
            Outcome o = act(Op {}, [&] { got = m.energy(F), P = m.stress(F); });
            if (!o.ok) fail("E01/refused", "after %s: the energy cannot be had: %s", what, o.what.c_str());
            double want = m.law.energy(F), s = m.law.stiffness() * (1 + std::fabs(want));
            if (!(std::fabs(got - want) <= 1e-11 * s)) fail("E01/energy", "after %s: the energy is %.17g instead of %.17g", what, got, want);
            M3 Q = m.law.stress(F);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    if (!(std::fabs(P[i][j] - Q[i][j]) <= 1e-11 * (s + norm(Q)))) fail("E01/stress", "after %s: component (%d, %d) of the stress is %.17g instead of %.17g", what, i, j, P[i][j], Q[i][j]);
            if (!(std::fabs(got - m.stored - m.work) <= close(s, m.path))) fail("E01/work", "after %s: %.17g was stored, but the work done is %.17g", what, got - m.stored, m.work);
        }
        bool bears(const Any & m, const M3 & to)
        {
            for (int k = 0; k <= 16; ++k)
                if (!m.law.bears(mix(m.F, to, k / 16.0))) return false;
            return true;
        }
        // move a point, in a straight line
        void load(Any & m, const M3 & to, const char * what, bool tangents)
        {
            if (!bears(m, to)) return probe("more than the material can bear");
            const int parts = 24;
            M3 from = m.F, dF;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) dF[i][j] = to[i][j] - from[i][j];
            double work = 0, scale = 0;
            M3 rise {};
            M3 before {}, after {};
            Outcome o = act(Op {}, [&] {
                before = m.stress(from);
                after = m.stress(to);
                for (int k = 0; k < parts; ++k)
                    for (int q = 0; q < 5; ++q) {
                        M3 F = mix(from, to, (k + GX[q]) / parts);
                        M3 P = m.stress(F);
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j) work += GW[q] / parts * P[i][j] * dF[i][j];
                        scale = std::max(scale, norm(P));
                        if (!tangents) continue;
                        C4 C = m.tangents(F);
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j)
                                for (int a = 0; a < 3; ++a)
                                    for (int b = 0; b < 3; ++b) rise[i][j] += GW[q] / parts * C[(size_t) (27 * i + 9 * j + 3 * a + b)] * dF[a][b];
                    }
            });
            if (!o.ok) fail("E01/refused", "%s: a stress cannot be had: %s", what, o.what.c_str());
            m.F = to;
            m.work += work;
            m.path += norm(dF) * (1 + scale);
            energy_is(m, what);
            if (tangents) {
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j)
                        if (!(std::fabs(rise[i][j] - (after[i][j] - before[i][j])) <= 1e-7 * (m.law.stiffness() + scale) * (1 + norm(dF)))) fail("E01/tangents", "%s: component (%d, %d) of the stress changes by %.17g, by its tangents it should by %.17g", what, i, j, after[i][j] - before[i][j], rise[i][j]);
                C4 C {};
                act(Op {}, [&] { C = m.tangents(to); });
                for (int i = 0; i < 9; ++i)
                    for (int j = 0; j < 9; ++j)
                        if (!(std::fabs(C[(size_t) (9 * i + j)] - C[(size_t) (9 * j + i)]) <= 1e-10 * (m.law.stiffness() + std::fabs(C[(size_t) (9 * i + j)])))) fail("E01/symmetry", "%s: the tangents are not those of an energy", what);
                probe("tangents along a path");
            }
        }
        M3 rotation(u64 seed)
        {
            Rng r(seed);
            M3 q = one();
            for (int k = 0; k < 3; ++k) {
                double t = (double) r.range(-30, 30) / 10;
                M3 g = one();
                int i = k, j = (k + 1) % 3;
                g[i][i] = g[j][j] = std::cos(t);
                g[i][j] = -std::sin(t);
                g[j][i] = std::sin(t);
                q = times(q, g);
            }
            return q;
        }
        std::unique_ptr<Any> make(u64 seed)
        {
            Rng r(seed);
            std::unique_ptr<Any> m;
            Law l;
            l.gent = r.chance(0.6);
            l.rho = (double) r.range(1, 20) / 4;
            if (l.gent) {
                l.a = (double) r.range(1, 80) / 8;
                l.b = (double) r.range(1, 80) / 8;
                l.c = (double) r.pick({ 10, 20, 80, 500, 972 }) / 10;
            } else {
                l.a = (double) r.range(1, 400) / 4;
                l.b = (double) r.range(-9, 9) / 20;
            }
            Outcome o = act(Op {}, [&] {
                if (l.gent) m.reset(new Real<mat::gent_t>(mat::gent(l.rho, l.a, l.b, l.c)));
                else m.reset(new Real<mat::linear_elastic_t>(mat::linear_elastic(l.rho, l.a, l.b)));
            });
            if (!o.ok) fail("E01/refused", "a material cannot be made: %s", o.what.c_str());
            m->law = l;
            return m;
        }
        void run(const Plan & p)
        {
            {
                static bool quiet = false;
                if (!quiet) {
                    journal::info_t("tests.stress_consistency_test").deactivate();
                    journal::info_t("tests.tangents_consistency_test").deactivate();
                }
                quiet = true;
            }
            i64 step = 0;
            for (auto & op : p.ops) {
                at(step++);
                if (op.kind == K_MAKE) {
                    if (pts.size() < 6) pts.push_back(make((u64) op.b));
                    if (pts.size()) energy_is(*pts.back(), "making a material");
                }
                if (pts.empty()) continue;
                size_t at_ = (size_t) ((op.a + op.task) % (i64) pts.size());
                auto & m = *pts[at_];
                Rng r((u64) op.b * 31 + (u64) op.c);
                switch (op.kind) {
                case K_DROP: {
                    Sut in;
                    pts.erase(pts.begin() + (long) at_);
                    break;
                }
                case K_COPY: {
                    std::unique_ptr<Any> c;
                    act(Op {}, [&] { c.reset(m.copy()); });
                    for (auto & o : pts)
                        if (op.d % 2 && o.get() != &m && o->law.gent == m.law.gent) {
                            // another becomes like this one
                            act(Op {}, [&] { o->become(*c); });
                            o->law = m.law;
                            o->F = m.F;
                            o->stored = m.stored, o->work = m.work, o->path = m.path;
                            energy_is(*o, "an assignment");
                            probe("assigned");
                            break;
                        }
                    if (pts.size() < 6 && op.d % 4 < 2) pts.push_back(std::move(c));
                    Sut in;
                    c.reset();
                    break;
                }
                case K_LOAD:
                case K_TANGENTS: {
                    M3 to = m.F;
                    double amp = (double) r.pick({ 1, 10, 30, 60 }) / 100;
                    bool from_rest = r.chance(0.3);
                    for (int i = 0; i < 3; ++i)
                        for (int j = 0; j < 3; ++j) {
                            if (from_rest) to[i][j] = i == j;
                            if (r.chance(0.7)) to[i][j] += amp * (2 * r.unit() - 1);
                        }
                    load(m, to, "loading", op.kind == K_TANGENTS);
                    break;
                }
                case K_BACK: load(m, one(), "going back", op.c % 4 == 0); break;
                case K_TURN: {
                    // what is turned as a whole stores the same energy, and the stress turns along
                    if (!m.law.gent) break;
                    M3 Q = rotation((u64) op.c), F = times(Q, m.F), P {}, T {};
                    double e = 0, t = 0;
                    act(Op {}, [&] {
                        e = m.energy(m.F), t = m.energy(F);
                        P = m.stress(m.F), T = m.stress(F);
                    });
                    M3 want = times(Q, P);
                    double s = m.law.stiffness() * (1 + norm(P));
                    if (!(std::fabs(e - t) <= 1e-10 * s)) fail("E01/turned", "the energy is %.17g, after a rotation %.17g", e, t);
                    for (int i = 0; i < 3; ++i)
                        for (int j = 0; j < 3; ++j)
                            if (!(std::fabs(want[i][j] - T[i][j]) <= 1e-9 * s)) fail("E01/turned", "the stress does not turn with the material");
                    probe("turned");
                    break;
                }
                case K_REST: {
                    double e = 1;
                    M3 P {};
                    act(Op {}, [&] { e = m.energy(one()), P = m.stress(one()); });
                    if (!(std::fabs(e) <= 1e-12 * m.law.stiffness() && norm(P) <= 1e-12 * m.law.stiffness())) fail("E01/rest", "a material that is not deformed has energy %.3g and a stress of %.3g", e, norm(P));
                    break;
                }
                case K_TEST: {
                    // the consistency test tells right from wrong
                    M3 F = one();
                    for (auto & row : F)
                        for (double & q : row) q += 0.15 * (2 * r.unit() - 1);
                    if (!m.law.bears(F) || (m.law.gent && m.law.trC(F) - 3 > 0.3 * m.law.c)) break;
                    M3 P {};
                    C4 C {};
                    act(Op {}, [&] { P = m.stress(F), C = m.tangents(F); });
                    int how = (int) (op.d % 5);
                    double pert = 1e-5, tol = 2e-9 * m.law.stiffness(), size = 0;
                    for (double q : C) size += q * q;
                    std::pair<bool, bool> got {};
                    Outcome o = act(Op {}, [&] { got = m.test(F, pert, tol, how); });
                    if (!o.ok) fail("E01/refused", "a material cannot be tested: %s", o.what.c_str());
                    bool wrong_p = how == 3 && 0.01 * norm(P) * 2e-5 > 3 * tol, wrong_c = how == 4 && 0.01 * std::sqrt(size) * 2e-5 > 3 * tol;
                    if (how < 3 && !got.first) fail("E01/test", "a consistent stress does not pass the test (%d)", how);
                    if (how < 3 && !got.second) fail("E01/test", "consistent tangents do not pass the test (%d)", how);
                    if (wrong_p && got.first) fail("E01/test", "a stress that is not that of the energy passes the test");
                    if (wrong_c && got.second) fail("E01/test", "tangents that are not those of the stress pass the test");
                    if (how >= 3) probe("wrong material tested");
                    if (wrong_p || wrong_c) probe("wrong material refused");
                    break;
                }
                }
                u64 h = pts.size();
                for (auto & q : pts) {
                    u64 bits;
                    double e = q->law.energy(q->F);
                    memcpy(&bits, &e, 8);
                    h = hcomb(h, bits);
                }
                state(h);
                log("%lld k%lld %zu points", (long long) step, (long long) op.kind, pts.size());
            }
            at(step);
            // every point is where its history has left it
            for (auto & q : pts) energy_is(*q, "everything");
            Sut in;
            pts.clear();
        }
    };
    void run(const Plan & p)
    {
        start_memory(p);
        World w;
        w.run(p);
    }
    Registrar r1("materials", gen, run);
}    // namespace
