// Functions, fields and forms: values built from other values, by several clients, at run time. The
// parts live in simulated memory, are copied, let go of and rebuilt in any order; what was built from
// them is evaluated, and differentiated, whenever. The model is a tree evaluated with truncated Taylor
// series (exact first and second derivatives), and tables of components for forms.
#include "../sim/sim.h"

#include <mito/functions.h>
// (fields look up derivatives where functions live, so ours must be there first)
namespace calc {
    template <class X, class Y>
    struct Any;
}
namespace mito::functions {
    template <int I, class X, class Y>
    calc::Any<X, Y> derivative(const calc::Any<X, Y> &);
}
#include <mito/geometry.h>
#include <mito/fields.h>
#include <mito/tensor.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <optional>

using namespace sim;
namespace fun = mito::functions;
namespace fld = mito::fields;
namespace ten = mito::tensor;
namespace geo = mito::geometry;

namespace calc {
    using ten::vector_t;
    using ten::matrix_t;

    template <class X>
    constexpr int dims = X::size;
    template <>
    constexpr int dims<double> = 1;
    template <int D>
    constexpr int dims<geo::coordinates_t<D, geo::CARTESIAN>> = D;

    // ---------------------------------------------------------------- a function of any make
    template <class X, class Y>
    struct Any : public fun::Function<X, Y> {
        struct Base {
            virtual ~Base() = default;
            virtual Y eval(const X &) const = 0;
            virtual Any d(int) const = 0;
            virtual Base * clone() const = 0;
        };
        template <class E, int depth>
        struct Node : Base {
            E e;
            Node(const E & x) : e(x) {}
            Y eval(const X & x) const override { return Y(e(x)); }
            Base * clone() const override { return new Node(*this); }
            Any d(int i) const override
            {
                if constexpr (depth < 2) {
                    // (a function of one variable has but one derivative, whatever it is called)
                    if (i == 0 || dims<X> == 1) return part<0>();
                    if constexpr (dims<X> > 1)
                        if (i == 1) return part<1>();
                    if constexpr (dims<X> > 2)
                        if (i == 2) return part<2>();
                }
                throw std::logic_error("harness: not differentiable");
            }
            template <int I>
            Any part() const
            {
                using fun::derivative;
                if constexpr (requires { derivative<I>(e); }) {
                    auto x = derivative<I>(e);
                    return Any::template of<depth + 1>(x);
                } else
                    throw std::logic_error("harness: not differentiable");
            }
        };
        std::unique_ptr<Base> p;
        Any() = default;
        template <int depth = 0, class E>
        static Any of(const E & e)
        {
            Any a;
            if constexpr (std::is_same_v<E, Any>) a = e;
            else
                a.p.reset(new Node<E, depth>(e));
            return a;
        }
        Any(const Any & o) : fun::Function<X, Y>(o), p(o.p ? o.p->clone() : nullptr) {}
        Any(Any &&) = default;
        Any & operator=(const Any & o)
        {
            if (this != &o) p.reset(o.p ? o.p->clone() : nullptr);
            return *this;
        }
        Any & operator=(Any &&) = default;
        Y operator()(const X & x) const { return p->eval(x); }
        template <fun::function_c H>
        auto operator()(const H & h) const
        {
            return fun::Composition(*this, h);
        }
        auto operator[](int i) const
        requires fun::subscriptable_c<Y>
        {
            return fun::Subscript(*this, i);
        }
        template <ten::tensor_c Z = Y>
        auto operator[](const typename Z::index_t & i) const
        requires ten::matrix_c<Y>
        {
            return fun::Subscript(*this, i);
        }
    };

}    // namespace calc
namespace mito::functions {
    template <int I, class X, class Y>
    calc::Any<X, Y> derivative(const calc::Any<X, Y> & f)
    {
        return f.p->d(I);
    }
}
namespace calc {
    // ---------------------------------------------------------------- truncated Taylor series
    bool BAD;      // outside the domain, or too close to its boundary
    double MAG;    // the largest quantity met
    struct J {
        double v = 0, g[3] = { 0, 0, 0 }, h[3][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } };
        J(double x = 0) : v(x) {}
    };
    J note(const J & a)
    {
        auto look = [](double x) {
            if (!std::isfinite(x)) BAD = true;
            else
                MAG = std::max(MAG, std::fabs(x));
        };
        look(a.v);
        for (int i = 0; i < 3; ++i) {
            look(a.g[i]);
            for (int j = 0; j < 3; ++j) look(a.h[i][j]);
        }
        return a;
    }
    J operator+(const J & a, const J & b)
    {
        J c(a.v + b.v);
        for (int i = 0; i < 3; ++i) {
            c.g[i] = a.g[i] + b.g[i];
            for (int j = 0; j < 3; ++j) c.h[i][j] = a.h[i][j] + b.h[i][j];
        }
        return note(c);
    }
    J operator*(const J & a, const J & b)
    {
        J c(a.v * b.v);
        for (int i = 0; i < 3; ++i) {
            c.g[i] = a.v * b.g[i] + a.g[i] * b.v;
            for (int j = 0; j < 3; ++j) c.h[i][j] = a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.h[i][j] * b.v;
        }
        return note(c);
    }
    J operator-(const J & a) { return J(-1) * a; }
    J operator-(const J & a, const J & b) { return a + (-b); }
    // f(a), given f and its derivatives at a
    J chain(const J & a, double f, double f1, double f2)
    {
        J c(f);
        for (int i = 0; i < 3; ++i) {
            c.g[i] = f1 * a.g[i];
            for (int j = 0; j < 3; ++j) c.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j];
        }
        return note(c);
    }
    J inv(const J & a)
    {
        if (std::fabs(a.v) < 0.05) {
            BAD = true;
            return J(0);
        }
        return chain(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v));
    }
    using Js = std::vector<J>;
    using Want = std::function<Js(const Js &)>;    // coordinates -> components

    // the functions of the library
    J library(int k, const J & a)
    {
        double x = a.v;
        switch (k) {
        case 0: return chain(a, std::sin(x), std::cos(x), -std::sin(x));
        case 1: return chain(a, std::cos(x), -std::sin(x), -std::cos(x));
        case 2: {
            if (std::fabs(std::cos(x)) < 0.1) BAD = true;
            double t = std::tan(x);
            return chain(a, t, 1 + t * t, 2 * t * (1 + t * t));
        }
        case 3:
        case 4: {
            if (std::fabs(x) > 0.95) {
                BAD = true;
                return J(0);
            }
            double s = std::sqrt(1 - x * x), f1 = 1 / s, f2 = x / (s * s * s);
            return k == 3 ? chain(a, std::acos(x), -f1, -f2) : chain(a, std::asin(x), f1, f2);
        }
        case 5: {
            double q = 1 + x * x;
            return chain(a, std::atan(x), 1 / q, -2 * x / (q * q));
        }
        case 6: {
            if (x > 6) BAD = true;
            double e = std::exp(std::min(x, 6.0));
            return chain(a, e, e, e);
        }
        case 7: {
            if (x < 0.05) {
                BAD = true;
                return J(0);
            }
            return chain(a, std::log(x), 1 / x, -1 / (x * x));
        }
        case 8: {
            if (x < 0.05) {
                BAD = true;
                return J(0);
            }
            double s = std::sqrt(x);
            return chain(a, s, 0.5 / s, -0.25 / (s * x));
        }
        case 9: {
            if (std::fabs(x) < 0.05) {
                BAD = true;
                return J(0);
            }
            double c = std::cbrt(x);
            return chain(a, c, 1 / (3 * c * c), -2 / (9 * c * c * x));
        }
        default: {
            int n = k - 9;    // 1..5
            return chain(a, std::pow(x, n), n * std::pow(x, n - 1), n < 2 ? 0 : n * (n - 1) * std::pow(x, n - 2));
        }
        }
    }
    constexpr int LIBRARY = 15;
    template <class F>
    void with_library(int k, F && f)
    {
        switch (k) {
        case 0: f(fun::sin); break;
        case 1: f(fun::cos); break;
        case 2: f(fun::tan); break;
        case 3: f(fun::acos); break;
        case 4: f(fun::asin); break;
        case 5: f(fun::atan); break;
        case 6: f(fun::exp); break;
        case 7: f(fun::log); break;
        case 8: f(fun::sqrt); break;
        case 9: f(fun::cbrt); break;
        case 10: f(fun::pow<1>); break;
        case 11: f(fun::pow<2>); break;
        case 12: f(fun::pow<3>); break;
        case 13: f(fun::pow<4>); break;
        default: f(fun::pow<5>); break;
        }
    }

    // what is kept
    template <class X, class Y>
    struct Item {
        Any<X, Y> f;
        Want want;
        int used = 0;          // derivatives taken on the way (at most two; 9: cannot be differentiated)
        bool derived = false;
        std::string how;
    };
    struct Pools;

    double real_of(i64 r)
    {
        static const double some[] = { 1, -1, 2, 0.5, -0.5, 3, 0.25, -1.5, 1.25, -2, 0.75, 4 };
        return some[r % 12];
    }

    constexpr size_t CAP = 7;
    template <class X, int D>
    struct World {
        using S = Item<X, double>;
        using V = Item<X, vector_t<D>>;
        using T = Item<X, matrix_t<D>>;
        static constexpr int N = dims<X>;
        std::vector<S> s;
        std::vector<V> v;
        std::vector<T> t;

        static X point(const double * x)
        {
            if constexpr (std::is_same_v<X, double>) return x[0];
            else if constexpr (N == 2)
                return X { x[0], x[1] };
            else
                return X { x[0], x[1], x[2] };
        }
        static Js seeds(const double * x)
        {
            Js o;
            for (int i = 0; i < N; ++i) {
                J j(x[i]);
                j.g[i] = 1;
                o.push_back(j);
            }
            return o;
        }
        template <class Y>
        static std::vector<double> flat(const Y & y)
        {
            std::vector<double> o;
            if constexpr (std::is_same_v<Y, double>) o.push_back(y);
            else if constexpr (ten::vector_c<Y>)
                for (int i = 0; i < D; ++i) o.push_back(y[i]);
            else
                for (int i = 0; i < D; ++i)
                    for (int j = 0; j < D; ++j) o.push_back(y[{ i, j }]);
            return o;
        }
        // compare an item with its model at a point
        template <class Y>
        static void judge(const Item<X, Y> & it, const double * x, const char * what)
        {
            BAD = false;
            MAG = 1;
            Js w = it.want(seeds(x));
            if (BAD || MAG > 300) return;
            double tol = 1e-10 * MAG * MAG;
            std::vector<double> got;
            {
                Sut in;
                auto y = it.f(point(x));
                Host out;
                got = flat(y);
            }
            for (size_t k = 0; k < got.size(); ++k)
                if (!(std::fabs(got[k] - w[k].v) <= tol))
                    fail(it.derived ? "C02,C01/value" : "C01/value", "%s: %s of %d variables, component %zu at (%g, %g, %g): %.12g, should be %.12g", what, it.how.c_str(), N, k, x[0], N > 1 ? x[1] : 0., N > 2 ? x[2] : 0., got[k], w[k].v);
            static int budget;
            if (++budget % 64 == 0)
                for (double y : got) log("    %.9g", y);
        }
    };
    template <int D>
    using coords = geo::coordinates_t<D, geo::CARTESIAN>;

    struct Pools {
        World<double, 2> w1;
        World<coords<2>, 2> w2;
        World<coords<3>, 3> w3;
        World<vector_t<2>, 2> wv;
    };

    template <class Y, int D>
    Y constant_of(i64 r)
    {
        if constexpr (std::is_same_v<Y, double>) return real_of(r);
        else if constexpr (ten::vector_c<Y>) {
            Y y;
            for (int i = 0; i < D; ++i) y[i] = real_of(r / (1 + i) + 5 * i);
            return y;
        } else {
            Y y;
            for (int i = 0; i < D; ++i)
                for (int j = 0; j < D; ++j) y[{ i, j }] = real_of(r / (1 + i + 3 * j) + 5 * i + 7 * j);
            return y;
        }
    }
    template <class Y, int D>
    Js jets_of(const Y & y)
    {
        Js o;
        if constexpr (std::is_same_v<Y, double>) o.push_back(J(y));
        else if constexpr (ten::vector_c<Y>)
            for (int i = 0; i < D; ++i) o.push_back(J(y[i]));
        else
            for (int i = 0; i < D; ++i)
                for (int j = 0; j < D; ++j) o.push_back(J(y[{ i, j }]));
        return o;
    }

    // a functor with state of its own
    struct Ramp {
        std::unique_ptr<double> a;
        explicit Ramp(double x) : a(new double(x)) {}
        Ramp(const Ramp & o) : a(new double(*o.a)) {}
        Ramp(Ramp &&) = default;
        double operator()(const double & x) const { return *a * x + 1; }
    };
}    // namespace calc

namespace {
    using namespace calc;

    enum { C_LEAF, C_SS, C_SC, C_OUTER, C_MANY, C_V, C_VV, C_T, C_NODIFF, C_PART, C_CALC, C_WHOLE, C_COMPOSE, C_COPY, C_DROP, C_EVAL, C_LOOSE, C_NEST };

    void gen_any(Rng & r, Plan & p, int tier, int faults)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 3);
        p.cfg["faults"] = faults;
        p.cfg["worlds"] = r.range(1, 15);
        p.cfg["size"] = r.range(6, 40);
        i64 n = r.range(6, tier ? 90 : 40);
        Swarm sw(r, { { C_LEAF, 4 }, { C_SS, 3 }, { C_SC, 3 }, { C_OUTER, 2 }, { C_MANY, 1.5 }, { C_V, 4 }, { C_VV, 1.5 }, { C_T, 3 }, { C_NODIFF, 0.7 }, { C_PART, 3 }, { C_CALC, 2 }, { C_WHOLE, 1 }, { C_COMPOSE, 1.5 }, { C_COPY, 1 }, { C_DROP, 3 }, { C_EVAL, 1 }, { C_LOOSE, 0.5 }, { C_NEST, 2 } }, { C_LEAF });
        Scheduler sc(r, (int) p.cfg["clients"]);
        i64 span = r.pick({ 3, 10, 40 });
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), i < 3 ? (i64) C_LEAF : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (faults && o.kind != C_DROP && r.chance(0.25)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_plain(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 0); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 1); }

    struct Runner {
        const Plan & plan;
        Pools P;
        const char * what = "";
        size_t limit = 40;
        explicit Runner(const Plan & p) : plan(p), limit((size_t) p.get("size", 40)) {}

        // make an item: {build} yields a mito expression
        template <class X, class Y, class Build>
        void put(const Op & op, std::vector<Item<X, Y>> & pool, Want want, int used, bool derived, std::string how, Build && build)
        {
            if (how.size() > limit * 4) return;
            Item<X, Y> it;
            it.want = std::move(want);
            it.used = used;
            it.derived = derived;
            it.how = std::move(how);
            Outcome o = act(op, [&] { it.f = Any<X, Y>::of(build()); });
            if (!o.ok) {
                if (!op.fk || !o.bad_alloc) fail("C01/refused", "%s: building %s threw: %s", what, it.how.c_str(), o.bad_alloc ? "bad_alloc" : o.what.c_str());
                probe("building-failed");
                {
                    Sut in;
                    it.f = {};
                }
                Op again = op;
                again.fk = 0;
                if (!act(again, [&] { it.f = Any<X, Y>::of(build()); }).ok) fail("C01/refused", "%s: %s cannot be built although the fault is over", what, it.how.c_str());
            }
            if (pool.size() >= CAP) {
                size_t i = (size_t) (op.d % (i64) pool.size());
                Sut in;
                pool[i].f = {};
                Host out;
                pool.erase(pool.begin() + (long) i);
            }
            pool.push_back(std::move(it));
        }
        template <class I>
        static const I * pick(const std::vector<I> & pool, i64 r)
        {
            return pool.empty() ? nullptr : &pool[(size_t) (r % (i64) pool.size())];
        }
        static std::string num(double a)
        {
            char b[32];
            snprintf(b, sizeof b, "%g", a);
            return b;
        }
        static Js map2(const Js & a, const Js & b, J (*f)(const J &, const J &))
        {
            Js o;
            for (size_t i = 0; i < a.size(); ++i) o.push_back(f(a[i], b[i]));
            return o;
        }
        static J plus(const J & a, const J & b) { return a + b; }
        static J minus(const J & a, const J & b) { return a - b; }
        static Js scaled(const J & a, const Js & b)
        {
            Js o;
            for (auto & x : b) o.push_back(a * x);
            return o;
        }

        // ------------------------------------------------ operations in one world
        template <class X, int D>
        void step(const Op & op, World<X, D> & w)
        {
            constexpr int N = dims<X>;
            using vec = vector_t<D>;
            using mat = matrix_t<D>;
            // operands are copied into simulated memory of their own, used, and let go of: what was
            // built must not care
            switch (op.kind) {
            case C_LEAF: {
                what = "leaf";
                leaf(op, w);
                break;
            }
            case C_LOOSE: {
                what = "functor";
                if constexpr (std::is_same_v<X, double>) {
                    double a = real_of(op.a);
                    put(op, w.s, [a](const Js & x) { return Js { note(J(a) * x[0] + J(1)) }; }, 9, false, "functor", [&] { return fun::function(Ramp(a)); });
                } else {
                    const auto * f = pick(w.s, op.a);
                    if (!f) break;
                    auto fw = f->want;
                    put(op, w.s, [fw](const Js & x) { return Js { fw(x)[0] * J(2) }; }, 9, f->derived, "functor(" + f->how + ")", [&] { return fun::function([g = f->f](const X & x) -> double { return 2 * g(x); }); });
                }
                break;
            }
            case C_SS: {
                what = "sum, difference, product, quotient";
                const auto *f = pick(w.s, op.a), *g = pick(w.s, op.b);
                if (!f) break;
                auto a = f->want, b = g->want;
                int used = std::max(f->used, g->used);
                bool der = f->derived || g->derived;
                static const char * name[] = { "+", "-", "*", "/" };
                std::string how = "(" + f->how + ")" + name[op.c % 4] + "(" + g->how + ")";
                switch (op.c % 4) {
                case 0: put(op, w.s, [a, b](const Js & x) { return Js { a(x)[0] + b(x)[0] }; }, used, der, how, [&] { return f->f + g->f; }); break;
                case 1: put(op, w.s, [a, b](const Js & x) { return Js { a(x)[0] - b(x)[0] }; }, used, der, how, [&] { return f->f - g->f; }); break;
                case 2: put(op, w.s, [a, b](const Js & x) { return Js { a(x)[0] * b(x)[0] }; }, used, der, how, [&] { return f->f * g->f; }); break;
                default: put(op, w.s, [a, b](const Js & x) { return Js { a(x)[0] * inv(b(x)[0]) }; }, used, der, how, [&] { return f->f / g->f; }); break;
                }
                break;
            }
            case C_SC: {
                what = "operation with a number";
                const auto * f = pick(w.s, op.a);
                if (!f) break;
                auto a = f->want;
                double c = real_of(op.b);
                J k(c);
                static const char * name[] = { "c+f", "f+c", "c-f", "f-c", "c*f", "f*c", "f/c", "c/f", "-f" };
                std::string how = std::string(name[op.c % 9]) + "[" + f->how + "," + num(c) + "]";
                auto go = [&](Want want, auto && build) { put(op, w.s, std::move(want), f->used, f->derived, how, build); };
                switch (op.c % 9) {
                case 0: go([a, k](const Js & x) { return Js { k + a(x)[0] }; }, [&] { return c + f->f; }); break;
                case 1: go([a, k](const Js & x) { return Js { k + a(x)[0] }; }, [&] { return f->f + c; }); break;
                case 2: go([a, k](const Js & x) { return Js { k - a(x)[0] }; }, [&] { return c - f->f; }); break;
                case 3: go([a, k](const Js & x) { return Js { a(x)[0] - k }; }, [&] { return f->f - c; }); break;
                case 4: go([a, k](const Js & x) { return Js { k * a(x)[0] }; }, [&] { return c * f->f; }); break;
                case 5: go([a, k](const Js & x) { return Js { a(x)[0] * k }; }, [&] { return f->f * c; }); break;
                case 6: go([a, c](const Js & x) { return Js { a(x)[0] * J(1 / c) }; }, [&] { return f->f / c; }); break;
                case 7: go([a, k](const Js & x) { return Js { k * inv(a(x)[0]) }; }, [&] { return c / f->f; }); break;
                default: go([a](const Js & x) { return Js { -a(x)[0] }; }, [&] { return -f->f; }); break;
                }
                break;
            }
            case C_OUTER: {
                what = "composition";
                const auto * g = pick(w.s, op.a);
                if (!g) break;
                auto b = g->want;
                if (op.c % 3 == 0) {
                    const auto * f = pick(P.w1.s, op.b);
                    if (!f) break;
                    auto a = f->want;
                    put(op, w.s,
                        [a, b](const Js & x) {
                            J u = b(x)[0], z(u.v);
                            z.g[0] = 1;
                            J y = a(Js { z })[0];
                            return Js { chain(u, y.v, y.g[0], y.h[0][0]) };
                        },
                        std::max(f->used, g->used), f->derived || g->derived, "(" + f->how + ")o(" + g->how + ")", [&] { return f->f(g->f); });
                } else {
                    int k = (int) (op.b % LIBRARY);
                    with_library(k, [&](auto & L) {
                        put(op, w.s, [k, b](const Js & x) { return Js { library(k, b(x)[0]) }; }, g->used, g->derived, "lib" + std::to_string(k) + "(" + g->how + ")", [&] { return L(g->f); });
                    });
                }
                break;
            }
            case C_MANY: {
                what = "summation";
                const auto *f = pick(w.s, op.a), *g = pick(w.s, op.b), *h = pick(w.s, op.c);
                if (!f) break;
                auto a = f->want, b = g->want, c = h->want;
                int used = std::max({ f->used, g->used, h->used });
                bool der = f->derived || g->derived || h->derived;
                std::string how = "{" + f->how + "," + g->how + "," + h->how + "}";
                if (op.d % 2) put(op, w.s, [a, b, c](const Js & x) { return Js { a(x)[0] + b(x)[0] + c(x)[0] }; }, used, der, "sum" + how, [&] { return fun::summation(f->f, g->f, h->f); });
                else {
                    std::array<double, 3> q { real_of(op.a + op.d), real_of(op.b + op.d), real_of(op.c) };
                    put(op, w.s, [a, b, c, q](const Js & x) { return Js { J(q[0]) * a(x)[0] + J(q[1]) * b(x)[0] + J(q[2]) * c(x)[0] }; }, used, der, "lc" + how, [&] { return fun::linear_combination(q, f->f, g->f, h->f); });
                }
                break;
            }
            case C_V: {
                what = "vector-valued function";
                vectors(op, w);
                break;
            }
            case C_VV: {
                what = "scalar of vectors";
                const auto *f = pick(w.v, op.a), *g = pick(w.v, op.b);
                if (!f) break;
                auto a = f->want, b = g->want;
                if (op.c % 2) {
                    int i = (int) (op.d % D);
                    put(op, w.s, [a, i](const Js & x) { return Js { a(x)[(size_t) i] }; }, f->used, f->derived, "(" + f->how + ")[" + std::to_string(i) + "]", [&] { return f->f[i]; });
                } else
                    put(op, w.s,
                        [a, b](const Js & x) {
                            Js p = a(x), q = b(x);
                            J o(0);
                            for (size_t i = 0; i < p.size(); ++i) o = o + p[i] * q[i];
                            return Js { o };
                        },
                        std::max(f->used, g->used), f->derived || g->derived, "(" + f->how + ").(" + g->how + ")", [&] { return f->f * g->f; });
                break;
            }
            case C_T: {
                what = "tensor-valued function";
                tensors(op, w);
                break;
            }
            case C_NODIFF: {
                what = "determinant, inverse";
                const auto * f = pick(w.t, op.a);
                if (!f) break;
                auto a = f->want;
                auto det = [](const Js & m) {
                    if constexpr (D == 2) return m[0] * m[3] - m[1] * m[2];
                    else
                        return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
                };
                if (op.b % 2) put(op, w.s, [a, det](const Js & x) { return Js { det(a(x)) }; }, 9, f->derived, "det(" + f->how + ")", [&] { return fun::determinant(f->f); });
                else
                    put(op, w.t,
                        [a, det](const Js & x) {
                            Js m = a(x), o((size_t) (D * D));
                            J q = inv(det(m));
                            auto M = [&](int i, int j) { return m[(size_t) ((i % D) * D + j % D)]; };
                            for (int i = 0; i < D; ++i)
                                for (int j = 0; j < D; ++j) {
                                    J c;
                                    if constexpr (D == 2) c = J((i + j) % 2 ? -1 : 1) * M(j + 1, i + 1);
                                    else
                                        c = M(j + 1, i + 1) * M(j + 2, i + 2) - M(j + 1, i + 2) * M(j + 2, i + 1);
                                    o[(size_t) (i * D + j)] = c * q;
                                }
                            return o;
                        },
                        9, f->derived, "inv(" + f->how + ")", [&] { return fun::inverse(f->f); });
                break;
            }
            case C_PART: {
                what = "partial derivative";
                int i = (int) (op.b % N);
                auto go = [&](auto & pool) {
                    // (often of what was made last)
                    const auto * f = op.a % 2 && pool.size() ? &pool.back() : pick(pool, op.a);
                    if (!f || f->used >= 2) return;
                    auto a = f->want;
                    auto want = [a, i](const Js & x) {
                        Js o;
                        for (auto & y : a(x)) {
                            J z(y.g[i]);
                            for (int k = 0; k < 3; ++k) z.g[k] = y.h[i][k];
                            o.push_back(note(z));
                        }
                        return o;
                    };
                    std::string how = "d" + std::to_string(i) + "(" + f->how + ")";
                    probe("partial-derivative");
                    if (f->used) probe("second-derivative");
                    if (i == 0) put(op, pool, want, f->used + 1, true, how, [&] { return fun::derivative<0>(f->f); });
                    if constexpr (N > 1)
                        if (i == 1) put(op, pool, want, f->used + 1, true, how, [&] { return fun::derivative<1>(f->f); });
                    if constexpr (N > 2)
                        if (i == 2) put(op, pool, want, f->used + 1, true, how, [&] { return fun::derivative<2>(f->f); });
                };
                if (op.c % 4 < 2) go(w.s);
                else if (op.c % 4 == 2)
                    go(w.v);
                else
                    go(w.t);
                break;
            }
            case C_CALC: {
                what = "gradient, divergence";
                if constexpr (geo::coordinates_c<X>) {
                    auto lower = [](const J & y, int i) {
                        J z(y.g[i]);
                        for (int k = 0; k < 3; ++k) z.g[k] = y.h[i][k];
                        return note(z);
                    };
                    switch (op.c % 4) {
                    case 0: {
                        const auto * f = pick(w.s, op.a);
                        if (!f || f->used >= 2) break;
                        auto a = f->want;
                        put(op, w.v,
                            [a, lower](const Js & x) {
                                Js o;
                                J y = a(x)[0];
                                for (int i = 0; i < D; ++i) o.push_back(lower(y, i));
                                return o;
                            },
                            f->used + 1, true, "grad(" + f->how + ")", [&] { return fld::gradient(f->f); });
                        probe("gradient");
                        break;
                    }
                    case 1: {
                        const auto * f = pick(w.v, op.a);
                        if (!f || f->used >= 2) break;
                        auto a = f->want;
                        put(op, w.t,
                            [a, lower](const Js & x) {
                                Js o, y = a(x);
                                for (int i = 0; i < D; ++i)
                                    for (int j = 0; j < D; ++j) o.push_back(lower(y[(size_t) i], j));
                                return o;
                            },
                            f->used + 1, true, "grad(" + f->how + ")", [&] { return fld::gradient(f->f); });
                        probe("gradient");
                        break;
                    }
                    case 2: {
                        const auto * f = pick(w.v, op.a);
                        if (!f || f->used >= 2) break;
                        auto a = f->want;
                        put(op, w.s,
                            [a, lower](const Js & x) {
                                Js y = a(x);
                                J o(0);
                                for (int i = 0; i < D; ++i) o = o + lower(y[(size_t) i], i);
                                return Js { o };
                            },
                            f->used + 1, true, "div(" + f->how + ")", [&] { return fld::divergence(f->f); });
                        probe("divergence");
                        break;
                    }
                    default: {
                        const auto * f = pick(w.t, op.a);
                        if (!f || f->used >= 2) break;
                        auto a = f->want;
                        put(op, w.v,
                            [a, lower](const Js & x) {
                                Js y = a(x), o;
                                for (int i = 0; i < D; ++i) {
                                    J z(0);
                                    for (int j = 0; j < D; ++j) z = z + lower(y[(size_t) (i * D + j)], j);
                                    o.push_back(z);
                                }
                                return o;
                            },
                            f->used + 1, true, "div(" + f->how + ")", [&] { return fld::divergence(f->f); });
                        probe("divergence");
                        break;
                    }
                    }
                }
                break;
            }
            case C_WHOLE: {
                what = "derivative";
                // the derivative as a matrix (components by variables), evaluated on the spot
                double x[3];
                where(op, x);
                if constexpr (!geo::coordinates_c<X>) {
                auto go = [&](const auto & f, int rows) {
                    if (f.used >= 2) return;
                    BAD = false;
                    MAG = 1;
                    Js y = f.want(World<X, D>::seeds(x));
                    if (BAD || MAG > 300) return;
                    std::vector<double> got;
                    Op plain = op;
                    plain.fk = 0;
                    Outcome o = act(plain, [&] {
                        auto m = fun::derivative(f.f)(World<X, D>::point(x));
                        Host out;
                        for (int i = 0; i < rows * N; ++i) {
                            if constexpr (std::is_arithmetic_v<decltype(m)>) got.push_back(m);
                            else
                                got.push_back(m[i]);
                        }
                    });
                    if (!o.ok) fail("C02/refused", "the derivative of %s cannot be taken: %s", f.how.c_str(), o.what.c_str());
                    for (int i = 0; i < rows; ++i)
                        for (int j = 0; j < N; ++j)
                            if (!(std::fabs(got[(size_t) (i * N + j)] - y[(size_t) i].g[j]) <= 1e-10 * MAG * MAG))
                                fail("C02/derivative", "the derivative of %s, component (%d,%d): %.12g, should be %.12g", f.how.c_str(), i, j, got[(size_t) (i * N + j)], y[(size_t) i].g[j]);
                    probe("whole-derivative");
                };
                if (op.c % 2) {
                    if (auto * f = pick(w.s, op.a)) go(*f, 1);
                } else if (auto * f = pick(w.v, op.a))
                    go(*f, D);
                }
                break;
            }
            case C_COMPOSE: {
                what = "composition with a vector-valued function";
                if constexpr (D == 2) {
                    const auto * g = pick(w.v, op.a);
                    if (!g) break;
                    auto b = g->want;
                    auto compose = [b](const Want & a) {
                        return [a, b](const Js & x) {
                            Js u = b(x), z;
                            for (int i = 0; i < 2; ++i) {
                                J q(u[(size_t) i].v);
                                q.g[i] = 1;
                                z.push_back(q);
                            }
                            Js o;
                            for (auto & y : a(z)) {
                                J r(y.v);
                                for (int i = 0; i < 3; ++i) {
                                    for (int k = 0; k < 2; ++k) r.g[i] += y.g[k] * u[(size_t) k].g[i];
                                    for (int j = 0; j < 3; ++j)
                                        for (int k = 0; k < 2; ++k) {
                                            r.h[i][j] += y.g[k] * u[(size_t) k].h[i][j];
                                            for (int l = 0; l < 2; ++l) r.h[i][j] += y.h[k][l] * u[(size_t) k].g[i] * u[(size_t) l].g[j];
                                        }
                                }
                                o.push_back(note(r));
                            }
                            return o;
                        };
                    };
                    auto go = [&](auto & from, auto & to) {
                        const auto * f = pick(from, op.b);
                        if (!f) return;
                        probe("vector-composition");
                        put(op, to, compose(f->want), std::max(f->used, g->used), f->derived || g->derived, "(" + f->how + ")o(" + g->how + ")", [&] { return f->f(g->f); });
                    };
                    if (op.c % 2) go(P.wv.s, w.s);
                    else
                        go(P.wv.v, w.v);
                }
                break;
            }
            case C_NEST: {
                what = "expression within an expression";
                nest(op, w);
                break;
            }
            case C_COPY: {
                what = "copy";
                auto go = [&](auto & pool) {
                    const auto * f = pick(pool, op.a);
                    if (!f) return;
                    put(op, pool, f->want, f->used, f->derived, f->how, [&] { return f->f; });
                };
                if (op.c % 3 == 0) go(w.s);
                if (op.c % 3 == 1) go(w.v);
                if (op.c % 3 == 2) go(w.t);
                break;
            }
            case C_DROP: {
                what = "drop";
                auto go = [&](auto & pool) {
                    if (pool.empty()) return;
                    size_t i = (size_t) (op.a % (i64) pool.size());
                    Sut in;
                    pool[i].f = {};
                    Host out;
                    pool.erase(pool.begin() + (long) i);
                };
                if (op.c % 3 == 0) go(w.s);
                if (op.c % 3 == 1) go(w.v);
                if (op.c % 3 == 2) go(w.t);
                break;
            }
            }
            (void) sizeof(vec);
            (void) sizeof(mat);
        }
        static void where(const Op & op, double * x)
        {
            Rng r((u64) (op.a * 7 + op.b * 13 + op.c * 29 + op.d));
            for (int i = 0; i < 3; ++i) x[i] = (double) r.range(-16, 24) / 16 + 1.0 / 64;
        }

        // library functions, components, constants and a few expressions with no seams between the parts
        template <class X, int D>
        void leaf(const Op & op, World<X, D> & w)
        {
            constexpr int N = dims<X>;
            double a = real_of(op.b), b = real_of(op.c);
            J ja(a), jb(b);
            i64 k = op.a % 12;
            if constexpr (std::is_same_v<X, double>) {
                if (k < 5) {
                    int l = (int) (op.d % LIBRARY);
                    with_library(l, [&](auto & L) { put(op, w.s, [l](const Js & x) { return Js { library(l, x[0]) }; }, 0, false, "lib" + std::to_string(l), [&] { return L; }); });
                    return;
                }
                auto lib = [](int l, const J & y) { return library(l, y); };
                switch (k) {
                case 5: put(op, w.s, [=](const Js & x) { return Js { lib(0, ja * library(11, x[0]) + jb) * x[0] }; }, 0, false, "sin(a x^2+b)x", [&] { return fun::sin(a * fun::pow<2> + b) * fun::pow<1>; }); break;
                case 6: put(op, w.s, [=](const Js & x) { return Js { lib(6, -(ja * x[0])) - jb * lib(1, x[0]) }; }, 0, false, "exp(-a x)-b cos", [&] { return fun::exp(-(a * fun::pow<1>) ) - b * fun::cos; }); break;
                case 7: put(op, w.s, [=](const Js & x) { return Js { library(12, x[0]) * inv(J(1) + library(11, x[0])) + ja }; }, 0, false, "x^3/(1+x^2)+a", [&] { return fun::pow<3> / (1.0 + fun::pow<2>) + a; }); break;
                case 8: put(op, w.s, [=](const Js & x) { return Js { ja * lib(0, x[0]) + jb * lib(6, x[0]) }; }, 0, false, "lc(sin,exp)", [&] { return fun::linear_combination(std::array<double, 2> { a, b }, fun::sin, fun::exp); }); break;
                case 9: put(op, w.s, [=](const Js & x) { return Js { lib(8, J(2) + lib(0, x[0])) * (ja - x[0] * lib(5, x[0])) }; }, 0, false, "sqrt(2+sin)(a-x atan)", [&] { return fun::sqrt(2.0 + fun::sin) * (a - fun::pow<1> * fun::atan); }); break;
                case 10: put(op, w.s, [=](const Js &) { return Js { ja }; }, 0, false, "constant", [&] { return fun::constant<X>(a); }); break;
                default: put(op, w.s, [=](const Js & x) { return Js { ja * lib(0, x[0]) + jb * lib(0, J(2) * x[0]) }; }, 0, false, "lc(sin,sin2)", [&] { return fun::linear_combination(std::array<double, 2> { a, b }, fun::sin, fun::sin(2.0 * fun::pow<1>)); }); break;
                }
            } else {
                constexpr auto x0 = fun::component<X, 0>;
                constexpr auto x1 = fun::component<X, 1>;
                constexpr auto xl = fun::component<X, N - 1>;
                switch (k) {
                case 0:
                case 1: put(op, w.s, [](const Js & x) { return Js { x[0] }; }, 0, false, "x0", [&] { return x0; }); break;
                case 2: put(op, w.s, [](const Js & x) { return Js { x[1] }; }, 0, false, "x1", [&] { return x1; }); break;
                case 3: put(op, w.s, [](const Js & x) { return Js { x[N - 1] }; }, 0, false, "xl", [&] { return xl; }); break;
                case 4: put(op, w.s, [=](const Js &) { return Js { ja }; }, 0, false, "constant", [&] { return fun::constant<X>(a); }); break;
                case 5: put(op, w.s, [=](const Js & x) { return Js { library(0, ja * x[0] * x[1] + jb) }; }, 0, false, "sin(a x0 x1+b)", [&] { return fun::sin(a * x0 * x1 + b); }); break;
                case 6: put(op, w.s, [=](const Js & x) { return Js { library(6, -(x[0] * x[0])) * (x[N - 1] - ja) }; }, 0, false, "exp(-x0 x0)(xl-a)", [&] { return fun::exp(-(x0 * x0)) * (xl - a); }); break;
                case 7: put(op, w.s, [=](const Js & x) { return Js { x[1] * inv(J(2) + library(11, x[N - 1])) - jb * x[0] }; }, 0, false, "x1/(2+xl^2)-b x0", [&] { return x1 / (2.0 + fun::pow<2>(xl)) - b * x0; }); break;
                case 8: {
                    using vec = vector_t<D>;
                    vec e0 = ten::e_0<D>, e1 = ten::e_1<D>;
                    put(op, w.v,
                        [=](const Js & x) {
                            Js o((size_t) D);
                            o[0] = x[1] * x[0];
                            o[1] = ja * library(0, x[0]);
                            return o;
                        },
                        0, false, "x1 x0 e0 + a sin(x0) e1", [&] { return x1 * x0 * e0 + a * fun::sin(x0) * e1; });
                    break;
                }
                case 9: {
                    auto c = constant_of<vector_t<D>, D>(op.d);
                    put(op, w.v, [c](const Js &) { return jets_of<vector_t<D>, D>(c); }, 0, false, "vector constant", [&] { return fun::constant<X>(c); });
                    break;
                }
                case 10: {
                    auto c = constant_of<matrix_t<D>, D>(op.d);
                    put(op, w.t, [c](const Js &) { return jets_of<matrix_t<D>, D>(c); }, 0, false, "tensor constant", [&] { return fun::constant<X>(c); });
                    break;
                }
                default:
                    put(op, w.t,
                        [=](const Js & x) {
                            Js o((size_t) (D * D));
                            o[0] = x[0] * x[1];
                            o[(size_t) (D * 1)] = ja * x[N - 1];
                            o[(size_t) (D + 1)] = library(1, x[0]);
                            return o;
                        },
                        0, false, "x0 x1 e00 + a xl e10 + cos(x0) e11", [&] { return matrix_t<D>(ten::e_00<D>) * (x0 * x1) + a * xl * matrix_t<D>(ten::e_10<D>) + fun::cos(x0) * matrix_t<D>(ten::e_11<D>); });
                    break;
                }
            }
        }
        // expressions of expressions, in one go
        template <class X, int D>
        void deep(const Op & op, World<X, D> & w, int k)
        {
            const auto *f = pick(w.s, op.a), *g = pick(w.s, op.b), *h = pick(w.s, op.c);
            const auto *u = pick(w.v, op.a), *v = pick(w.v, op.b);
            const auto *s = pick(w.t, op.a), *t = pick(w.t, op.b);
            double q = real_of(op.d);
            J jq(q), two(2);
            std::string in = "{" + num(q) + "}";
            probe("an expression of expressions");
            switch (k % 3) {
            case 0: {
                if (!f) return;
                auto a = f->want, b = g->want, c = h->want;
                auto go = [&](const char * name, auto y, auto && build) {
                    put(op, w.s, [a, b, c, y](const Js & x) { return Js { note(y(a(x)[0], b(x)[0], c(x)[0])) }; }, std::max({ f->used, g->used, h->used }), f->derived || g->derived || h->derived, name + in + "[" + f->how + "," + g->how + "," + h->how + "]", build);
                };
                using R = const J &;
                switch (k / 3 % 12) {
                case 0: go("(f+g)+h", [](R x, R y, R z) { return x + y + z; }, [&] { return (f->f + g->f) + h->f; }); break;
                case 1: go("(fg)h", [](R x, R y, R z) { return x * y * z; }, [&] { return (f->f * g->f) * h->f; }); break;
                case 2: go("f/(g/h)", [](R x, R y, R z) { return x * inv(y * inv(z)); }, [&] { return f->f / (g->f / h->f); }); break;
                case 3: go("q(2f)", [jq, two](R x, R, R) { return jq * two * x; }, [&] { return q * (2.0 * f->f); }); break;
                case 4: go("(fq)2", [jq, two](R x, R, R) { return jq * two * x; }, [&] { return (f->f * q) * 2.0; }); break;
                case 5: go("(f+q)+2", [jq, two](R x, R, R) { return jq + two + x; }, [&] { return (f->f + q) + 2.0; }); break;
                case 6: go("-(-f)", [](R x, R, R) { return x; }, [&] { return -(-f->f); }); break;
                case 7: go("1/(1/f)", [](R x, R, R) { return inv(inv(x)); }, [&] { return 1.0 / (1.0 / f->f); }); break;
                case 8: go("q/recip(f)", [jq](R x, R, R) { return jq * inv(inv(x)); }, [&] { return q / fun::Reciprocal(f->f); }); break;
                case 9: go("lc(lc,h)", [jq, two](R x, R y, R z) { return two * (jq * x + two * y) + jq * z; }, [&] { return fun::linear_combination(std::array<double, 2> { 2.0, q }, fun::linear_combination(std::array<double, 2> { q, 2.0 }, f->f, g->f), h->f); }); break;
                case 10: go("sum(sum,h)", [](R x, R y, R z) { return x + y + z; }, [&] { return fun::summation(fun::summation(f->f, g->f), h->f); }); break;
                default: go("(f+g)/(q-h)", [jq](R x, R y, R z) { return (x + y) * inv(jq - z); }, [&] { return (f->f + g->f) / (q - h->f); }); break;
                }
                break;
            }
            case 1: {
                if (!u || !f) return;
                auto a = f->want, b = u->want, c = v->want;
                int used = std::max({ f->used, u->used, v->used });
                bool der = f->derived || u->derived || v->derived;
                auto go = [&](const char * name, auto y, auto && build) {
                    put(op, w.v,
                        [a, b, c, y](const Js & x) {
                            Js o = y(a(x)[0], b(x), c(x));
                            for (auto & z : o) z = note(z);
                            return o;
                        },
                        used, der, name + in + "[" + f->how + "," + u->how + "," + v->how + "]", build);
                };
                using R = const J &;
                using V = const Js &;
                switch (k / 3 % 6) {
                case 0: go("-(-u)", [](R, V y, V) { return y; }, [&] { return -(-u->f); }); break;
                case 1: go("q(2u)", [jq, two](R, V y, V) { return scaled(jq * two, y); }, [&] { return q * (2.0 * u->f); }); break;
                case 2: go("f(fu)", [](R x, V y, V) { return scaled(x * x, y); }, [&] { return f->f * (f->f * u->f); }); break;
                case 3: go("(u+v)-u", [](R, V, V z) { return z; }, [&] { return (u->f + v->f) - u->f; }); break;
                case 4: go("(uf)/f", [](R x, V y, V) { return scaled(x * inv(x), y); }, [&] { return (u->f * f->f) / f->f; }); break;
                default: {
                    // the component of a vector-valued function, as a function of the vector
                    size_t i = (size_t) (op.c % 2);
                    using vec = vector_t<D>;
                    put(op, w.s, [b, i](const Js & x) { return Js { b(x)[i] }; }, u->used, u->derived, "component" + std::to_string(i) + "(" + u->how + ")", [&] {
                        if (i == 0) return Any<X, double>::of(fun::component<vec, 0>(u->f));
                        return Any<X, double>::of(fun::component<vec, 1>(u->f));
                    });
                }
                }
                break;
            }
            default: {
                if (!s) return;
                auto b = s->want, c = t->want;
                auto turned = [](const Js & m) {
                    Js o((size_t) (D * D));
                    for (int i = 0; i < D; ++i)
                        for (int j = 0; j < D; ++j) o[(size_t) (i * D + j)] = m[(size_t) (j * D + i)];
                    return o;
                };
                auto det = [](const Js & m) {
                    if constexpr (D == 2) return m[0] * m[3] - m[1] * m[2];
                    else
                        return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
                };
                auto go = [&](const char * name, bool smooth, auto y, auto && build) {
                    put(op, w.t,
                        [b, c, y](const Js & x) {
                            Js o = y(b(x), c(x));
                            for (auto & z : o) z = note(z);
                            return o;
                        },
                        smooth ? std::max(s->used, t->used) : 9, s->derived || t->derived, name + in + "[" + s->how + "," + t->how + "]", build);
                };
                using M = const Js &;
                switch (k / 3 % 8) {
                case 0: go("T^t^t", true, [](M y, M) { return y; }, [&] { return fun::transpose(fun::transpose(s->f)); }); break;
                case 1: go("T^t^t^t", true, [turned](M y, M) { return turned(y); }, [&] { return fun::transpose(fun::transpose(fun::transpose(s->f))); }); break;
                case 2: go("(S+T)^t", true, [turned](M y, M z) { return turned(map2(y, z, plus)); }, [&] { return fun::transpose(s->f + t->f); }); break;
                case 3: go("(qT)^t", true, [turned, jq](M y, M) { return scaled(jq, turned(y)); }, [&] { return fun::transpose(q * s->f); }); break;
                case 4: go("-(-T)", true, [](M y, M) { return y; }, [&] { return -(-s->f); }); break;
                case 5:
                    // (exact only as far as the matrix can be inverted twice)
                    go("T^-1^-1", false,
                        [det](M y, M) {
                            (void) inv(det(y));
                            (void) inv(inv(det(y)));
                            return y;
                        },
                        [&] { return fun::inverse(fun::inverse(s->f)); });
                    break;
                case 6: put(op, w.s, [b, det](const Js & x) { return Js { note(inv(det(b(x)))) }; }, 9, s->derived, "det(T^-1)[" + s->how + "]", [&] { return fun::determinant(fun::inverse(s->f)); }); break;
                default: put(op, w.s, [b, det](const Js & x) { return Js { note(det(b(x))) }; }, 9, s->derived, "det(T^t)[" + s->how + "]", [&] { return fun::determinant(fun::transpose(s->f)); }); break;
                }
            }
            }
        }
        // expressions that are used as they are, without a home of their own: subscripts and compositions
        template <class X, int D>
        void nest(const Op & op, World<X, D> & w)
        {
            const auto *f = pick(w.s, op.a), *g = pick(w.s, op.b), *h = pick(w.s, op.c);
            if (!f) return;
            auto a = f->want, b = g->want, c = h->want;
            double q = real_of(op.d);
            J jq(q);
            int k = (int) (op.d / 7 + op.a / 3 + op.b / 5);
            k = k < 0 ? -k : k;
            if constexpr (std::is_same_v<X, double> || std::is_same_v<X, vector_t<2>>) {
                if (op.d % 2) {
                    deep(op, w, k);
                    return;
                }
            }
            if constexpr (std::is_same_v<X, double>) {
                // {e} made of f and g, composed with h
                int used = std::max({ f->used, g->used, h->used });
                bool der = f->derived || g->derived || h->derived;
                auto go = [&](const char * name, auto e, auto && build) {
                    Want want = [e, a, b, c](const Js & x) {
                        J u = c(x)[0], z(u.v);
                        z.g[0] = 1;
                        J y = note(e(a(Js { z })[0], b(Js { z })[0]));
                        return Js { chain(u, y.v, y.g[0], y.h[0][0]) };
                    };
                    probe("an expression composed at once");
                    put(op, w.s, want, used, der, std::string(name) + "[" + f->how + "," + g->how + "," + num(q) + "]o(" + h->how + ")", build);
                };
                switch (k % 10) {
                case 0: go("f+g", [](const J & y, const J & z) { return y + z; }, [&] { return (f->f + g->f)(h->f); }); break;
                case 1: go("fg", [](const J & y, const J & z) { return y * z; }, [&] { return (f->f * g->f)(h->f); }); break;
                case 2: go("af", [jq](const J & y, const J &) { return jq * y; }, [&] { return (q * f->f)(h->f); }); break;
                case 3: go("fa", [jq](const J & y, const J &) { return jq * y; }, [&] { return (f->f * q)(h->f); }); break;
                case 4: go("f+a", [jq](const J & y, const J &) { return jq + y; }, [&] { return (f->f + q)(h->f); }); break;
                case 5: go("1/f", [](const J & y, const J &) { return inv(y); }, [&] { return fun::Reciprocal(f->f)(h->f); }); break;
                case 6: go("lc", [jq](const J & y, const J & z) { return jq * y + J(2) * z; }, [&] { return fun::linear_combination(std::array<double, 2> { q, 2.0 }, f->f, g->f)(h->f); }); break;
                case 7: go("a", [jq](const J &, const J &) { return jq; }, [&] { return fun::constant<double>(q)(h->f); }); break;
                case 8:
                    go("fof",
                        [a](const J &, const J & z) {
                            J u(z.v);
                            u.g[0] = 1;
                            J y = a(Js { u })[0];
                            return chain(z, y.v, y.g[0], y.h[0][0]);
                        },
                        [&] { return f->f(g->f)(h->f); });
                    break;
                default: {
                    const auto * v = pick(w.v, op.b);
                    if (!v) break;
                    auto d = v->want;
                    int i = (int) (op.c % D);
                    used = std::max(v->used, h->used);
                    der = v->derived || h->derived;
                    probe("a component composed at once");
                    put(op, w.s,
                        [d, c, i](const Js & x) {
                            J u = c(x)[0], z(u.v);
                            z.g[0] = 1;
                            J y = d(Js { z })[(size_t) i];
                            return Js { chain(u, y.v, y.g[0], y.h[0][0]) };
                        },
                        used, der, "(" + v->how + ")_" + std::to_string(i) + "o(" + h->how + ")", [&] { return v->f[i](h->f); });
                    break;
                }
                }
            } else if constexpr (std::is_same_v<X, vector_t<2>>) {
                // the components of an expression
                const auto *u = pick(w.v, op.b), *v = pick(w.v, op.c);
                if (!u) return;
                auto d = u->want, e = v->want;
                size_t i = (size_t) (op.d % D);
                auto cv = constant_of<vector_t<D>, D>(op.d);
                Js jc = jets_of<vector_t<D>, D>(cv);
                int used = std::max({ f->used, u->used, v->used });
                bool der = f->derived || u->derived || v->derived;
                auto go = [&](const char * name, auto y, auto && build) {
                    Want want = [y, a, d, e, i](const Js & x) { return Js { note(y(a(x)[0], d(x), e(x))) }; };
                    probe("a component of an expression");
                    put(op, w.s, want, used, der, std::string(name) + "_" + std::to_string(i) + "[" + f->how + "," + u->how + "," + v->how + "," + num(q) + "]", build);
                };
                int n = (int) i;
                switch (k % 9) {
                case 0: go("u+v", [i](const J &, const Js & y, const Js & z) { return y[i] + z[i]; }, [&] { return (u->f + v->f)[n]; }); break;
                case 1: go("fu", [i](const J & f, const Js & y, const Js &) { return f * y[i]; }, [&] { return (f->f * u->f)[n]; }); break;
                case 2: go("au", [i, jq](const J &, const Js & y, const Js &) { return jq * y[i]; }, [&] { return (q * u->f)[n]; }); break;
                case 3: go("ua", [i, jq](const J &, const Js & y, const Js &) { return y[i] * jq; }, [&] { return (u->f * q)[n]; }); break;
                case 4: go("u+c", [i, jc](const J &, const Js & y, const Js &) { return y[i] + jc[i]; }, [&] { return (u->f + cv)[n]; }); break;
                case 5: go("lc", [i, jq](const J &, const Js & y, const Js & z) { return jq * y[i] + J(-3) * z[i]; }, [&] { return fun::linear_combination(std::array<double, 2> { q, -3.0 }, u->f, v->f)[n]; }); break;
                case 6: go("c", [i, jc](const J &, const Js &, const Js &) { return jc[i]; }, [&] { return fun::constant<X>(cv)[n]; }); break;
                case 7: {
                    size_t j = (size_t) (op.a % D);
                    int m = (int) j;
                    used = 9;
                    go("dyadic", [i, j](const J &, const Js & y, const Js & z) { return y[i] * z[j]; }, [&] { return fun::function([e = fun::dyadic(u->f, v->f)[{ n, m }]](const X & x) -> double { return e(x); }); });
                    break;
                }
                default: {
                    const auto *s = pick(w.t, op.b), *t = pick(w.t, op.c);
                    if (!s) break;
                    int j = (int) (op.a % D);
                    size_t at = (size_t) (n * D + j), ta = (size_t) (j * D + n);
                    d = s->want;
                    e = t->want;
                    used = std::max({ f->used, s->used, t->used });
                    der = f->derived || s->derived || t->derived;
                    auto is = [&](const char * name, auto y, auto && build) {
                        Want want = [y, a, d, e](const Js & x) { return Js { note(y(a(x)[0], d(x), e(x))) }; };
                        probe("an entry of an expression");
                        put(op, w.s, want, used, der, std::string(name) + "_" + std::to_string(n) + std::to_string(j) + "[" + f->how + "," + s->how + "," + t->how + "," + num(q) + "]", build);
                    };
                    switch (op.a / 4 % 4) {
                    case 0: is("S+T", [at](const J &, const Js & y, const Js & z) { return y[at] + z[at]; }, [&] { return (s->f + t->f)[{ n, j }]; }); break;
                    case 1: is("fT", [at](const J & f, const Js & y, const Js &) { return f * y[at]; }, [&] { return (f->f * s->f)[{ n, j }]; }); break;
                    case 2: is("T^t", [ta](const J &, const Js & y, const Js &) { return y[ta]; }, [&] { return fun::transpose(s->f)[{ n, j }]; }); break;
                    default: is("aT", [at, jq](const J &, const Js & y, const Js &) { return jq * y[at]; }, [&] { return (q * s->f)[{ n, j }]; }); break;
                    }
                }
                }
            }
        }
        template <class X, int D>
        void vectors(const Op & op, World<X, D> & w)
        {
            using vec = vector_t<D>;
            const auto *s = pick(w.s, op.a), *q = pick(w.s, op.d);
            const auto *f = pick(w.v, op.b), *g = pick(w.v, op.c);
            i64 k = (op.a / 16 + op.b / 16 + op.c / 16) % 15;
            auto c = constant_of<vec, D>(op.d);
            Js jc = jets_of<vec, D>(c);
            double a = real_of(op.d / 3);
            J ja(a);
            if (!f || k < 3) {
                if (!s) return;
                auto p = s->want, r = q->want;
                if (k % 3 == 0) put(op, w.v, [p, jc](const Js & x) { return scaled(p(x)[0], jc); }, s->used, s->derived, "(" + s->how + ")*c", [&] { return s->f * c; });
                else if (k % 3 == 1)
                    put(op, w.v, [p, jc](const Js & x) { return scaled(p(x)[0], jc); }, s->used, s->derived, "c*(" + s->how + ")", [&] { return c * s->f; });
                else {
                    vec e0 = ten::e_0<D>, e1 = ten::e<D - 1, D>;
                    put(op, w.v,
                        [p, r](const Js & x) {
                            Js o((size_t) D);
                            o[0] = p(x)[0];
                            o[(size_t) (D - 1)] = r(x)[0];
                            return o;
                        },
                        std::max(s->used, q->used), s->derived || q->derived, "(" + s->how + ")e0+(" + q->how + ")el", [&] { return s->f * e0 + q->f * e1; });
                }
                return;
            }
            auto fa = f->want, gb = g->want;
            int used = std::max(f->used, g->used);
            bool der = f->derived || g->derived;
            std::string two = "[" + f->how + "," + g->how + "]", one = "[" + f->how + "]";
            switch (k) {
            case 3: put(op, w.v, [=](const Js & x) { return map2(fa(x), gb(x), plus); }, used, der, "V+V" + two, [&] { return f->f + g->f; }); break;
            case 4: put(op, w.v, [=](const Js & x) { return map2(fa(x), gb(x), minus); }, used, der, "V-V" + two, [&] { return f->f - g->f; }); break;
            case 5: put(op, w.v, [=](const Js & x) { return scaled(ja, fa(x)); }, f->used, f->derived, "aV" + one, [&] { return a * f->f; }); break;
            case 6: put(op, w.v, [=](const Js & x) { return scaled(ja, fa(x)); }, f->used, f->derived, "Va" + one, [&] { return f->f * a; }); break;
            case 7: put(op, w.v, [=](const Js & x) { return scaled(J(-1), fa(x)); }, f->used, f->derived, "-V" + one, [&] { return -f->f; }); break;
            case 8: put(op, w.v, [=](const Js & x) { return map2(fa(x), jc, plus); }, f->used, f->derived, "V+c" + one, [&] { return f->f + c; }); break;
            case 9: put(op, w.v, [=](const Js & x) { return map2(jc, fa(x), minus); }, f->used, f->derived, "c-V" + one, [&] { return c - f->f; }); break;
            case 10: put(op, w.v, [=](const Js & x) { return map2(fa(x), jc, minus); }, f->used, f->derived, "V-c" + one, [&] { return f->f - c; }); break;
            case 11: put(op, w.v, [=](const Js & x) { return scaled(J(1 / a), fa(x)); }, f->used, f->derived, "V/a" + one, [&] { return f->f / a; }); break;
            default: {
                if (!s) return;
                auto p = s->want;
                used = std::max(s->used, f->used);
                der = s->derived || f->derived;
                std::string how = "[" + s->how + "," + f->how + "]";
                if (k == 12) put(op, w.v, [=](const Js & x) { return scaled(p(x)[0], fa(x)); }, used, der, "SV" + how, [&] { return s->f * f->f; });
                else if (k == 13)
                    put(op, w.v, [=](const Js & x) { return scaled(p(x)[0], fa(x)); }, used, der, "VS" + how, [&] { return f->f * s->f; });
                else
                    put(op, w.v, [=](const Js & x) { return scaled(inv(p(x)[0]), fa(x)); }, used, der, "V/S" + how, [&] { return f->f / s->f; });
            }
            }
        }
        template <class X, int D>
        void tensors(const Op & op, World<X, D> & w)
        {
            using mat = matrix_t<D>;
            const auto *s = pick(w.s, op.a), *q = pick(w.s, op.a / 3);
            const auto *f = pick(w.t, op.b), *g = pick(w.t, op.c);
            const auto *u = pick(w.v, op.b), *z = pick(w.v, op.c);
            i64 k = (op.a / 16 + op.b / 16 + op.c / 16) % 17;
            if (k >= 15) k = 7;
            auto c = constant_of<mat, D>(op.d);
            Js jc = jets_of<mat, D>(c);
            double a = real_of(op.d / 3);
            J ja(a);
            auto times = [](const Js & m, const Js & n) {
                Js o((size_t) (D * D));
                for (int i = 0; i < D; ++i)
                    for (int j = 0; j < D; ++j)
                        for (int l = 0; l < D; ++l) o[(size_t) (i * D + j)] = o[(size_t) (i * D + j)] + m[(size_t) (i * D + l)] * n[(size_t) (l * D + j)];
                return o;
            };
            auto apply = [](const Js & m, const Js & v) {
                Js o((size_t) D);
                for (int i = 0; i < D; ++i)
                    for (int l = 0; l < D; ++l) o[(size_t) i] = o[(size_t) i] + m[(size_t) (i * D + l)] * v[(size_t) l];
                return o;
            };
            if (!f || k < 3) {
                if (k % 3 == 0 && s) {
                    auto p = s->want;
                    put(op, w.t, [p, jc](const Js & x) { return scaled(p(x)[0], jc); }, s->used, s->derived, "(" + s->how + ")*M", [&] { return s->f * c; });
                } else if (k % 3 == 1 && u) {
                    auto p = u->want, r = z->want;
                    put(op, w.t,
                        [p, r](const Js & x) {
                            Js m = p(x), n = r(x), o;
                            for (auto & y : m)
                                for (auto & l : n) o.push_back(y * l);
                            return o;
                        },
                        9, u->derived || z->derived, "dyadic[" + u->how + "," + z->how + "]", [&] { return fun::dyadic(u->f, z->f); });
                } else if (s) {
                    auto p = s->want, r = q->want;
                    mat e0 = ten::e_00<D>, e1 = ten::e_10<D>;
                    put(op, w.t,
                        [p, r](const Js & x) {
                            Js o((size_t) (D * D));
                            o[0] = p(x)[0];
                            o[(size_t) D] = r(x)[0];
                            return o;
                        },
                        std::max(s->used, q->used), s->derived || q->derived, "(" + s->how + ")e00+(" + q->how + ")e10", [&] { return s->f * e0 + e1 * q->f; });
                }
                return;
            }
            auto fa = f->want, gb = g->want;
            int used = std::max(f->used, g->used);
            bool der = f->derived || g->derived;
            std::string two = "[" + f->how + "," + g->how + "]", one = "[" + f->how + "]";
            switch (k) {
            case 3: put(op, w.t, [=](const Js & x) { return map2(fa(x), gb(x), plus); }, used, der, "T+T" + two, [&] { return f->f + g->f; }); break;
            case 4: put(op, w.t, [=](const Js & x) { return map2(fa(x), gb(x), minus); }, used, der, "T-T" + two, [&] { return f->f - g->f; }); break;
            case 5: put(op, w.t, [=](const Js & x) { return scaled(ja, fa(x)); }, f->used, f->derived, "aT" + one, [&] { return a * f->f; }); break;
            case 6: put(op, w.t, [=](const Js & x) { return times(fa(x), gb(x)); }, used, der, "TT" + two, [&] { return f->f * g->f; }); break;
            case 7:
                put(op, w.t,
                    [=](const Js & x) {
                        Js m = fa(x), o((size_t) (D * D));
                        for (int i = 0; i < D; ++i)
                            for (int j = 0; j < D; ++j) o[(size_t) (i * D + j)] = m[(size_t) (j * D + i)];
                        return o;
                    },
                    f->used, f->derived, "transpose" + one, [&] { return fun::transpose(f->f); });
                break;
            case 8: {
                int i = (int) (op.d % D), j = (int) (op.d / 5 % D);
                put(op, w.s, [=](const Js & x) { return Js { fa(x)[(size_t) (i * D + j)] }; }, f->used, f->derived, one + "_" + std::to_string(i) + std::to_string(j), [&] { return f->f[{ i, j }]; });
                break;
            }
            case 9: put(op, w.t, [=](const Js & x) { return map2(fa(x), jc, plus); }, f->used, f->derived, "T+M" + one, [&] { return f->f + c; }); break;
            case 10: put(op, w.t, [=](const Js & x) { return times(jc, fa(x)); }, f->used, f->derived, "M*T" + one, [&] { return c * f->f; }); break;
            case 11: put(op, w.t, [=](const Js & x) { return times(fa(x), jc); }, f->used, f->derived, "T*M" + one, [&] { return f->f * c; }); break;
            default: {
                if (k == 12 && u) {
                    auto p = u->want;
                    put(op, w.v, [=](const Js & x) { return apply(fa(x), p(x)); }, std::max(f->used, u->used), f->derived || u->derived, "TV[" + f->how + "," + u->how + "]", [&] { return f->f * u->f; });
                } else if (k == 13 && u) {
                    auto p = u->want;
                    put(op, w.v, [=](const Js & x) { return apply(jc, p(x)); }, u->used, u->derived, "M*V[" + u->how + "]", [&] { return c * u->f; });
                } else if (s) {
                    auto p = s->want;
                    put(op, w.t, [=](const Js & x) { return scaled(p(x)[0], fa(x)); }, std::max(s->used, f->used), s->derived || f->derived, "ST[" + s->how + "," + f->how + "]", [&] { return s->f * f->f; });
                }
            }
            }
        }
        template <class X, int D>
        void check(const World<X, D> & w, Rng & r, u64 & h)
        {
            double x[3];
            for (int i = 0; i < 3; ++i) x[i] = (double) r.range(-16, 24) / 16 + 1.0 / 64;
            auto go = [&](auto & pool) {
                for (auto & it : pool) World<X, D>::judge(it, x, what), h = hcomb(h, hstr(it.how.c_str()));
            };
            go(w.s);
            go(w.v);
            go(w.t);
        }
        template <class X, int D>
        void clear(World<X, D> & w)
        {
            auto go = [&](auto & pool) {
                for (auto & it : pool) {
                    Sut in;
                    it.f = {};
                }
                pool.clear();
            };
            go(w.s);
            go(w.v);
            go(w.t);
        }
    };
    void run_calculus(const Plan & p)
    {
        start_memory(p);
        Runner R(p);
        i64 worlds = std::max<i64>(1, p.get("worlds", 15));
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            R.what = "nothing";
            int w = (int) ((op.a / 7 + op.b / 3) % 4);
            while (!(worlds >> w & 1)) w = (w + 1) % 4;
            if (w == 0) R.step(op, R.P.w1);
            if (w == 1) R.step(op, R.P.w2);
            if (w == 2) R.step(op, R.P.w3);
            if (w == 3) R.step(op, R.P.wv);
            Rng r((u64) (op.a + 3 * op.b + 5 * op.c + 7 * op.d + step));
            u64 h = 3;
            R.check(R.P.w1, r, h);
            R.check(R.P.w2, r, h);
            R.check(R.P.w3, r, h);
            R.check(R.P.wv, r, h);
            state(h);
            log("%lld k%lld w%d %s", (long long) step, (long long) op.kind, w, R.what);
        }
        R.clear(R.P.w1);
        R.clear(R.P.w2);
        R.clear(R.P.w3);
        R.clear(R.P.wv);
        if (mem::live_blocks()) fail("C01/leak", "%lld blocks of memory are left when every function is gone", (long long) mem::live_blocks());
    }
    Registrar reg_calc("calculus", gen_plain, run_calculus), reg_calc_f("calculus_faults", gen_faults, run_calculus);
}
