// Forms: exterior algebra at run time. Forms are made of vectors, metrics, functors and other forms, in
// simulated memory, by several clients; the parts are let go of while what was made of them lives on.
// The model is a table of components per form. Fields of forms and the metric spaces of the coordinates
// the library knows are evaluated at seeded places.
#include "../sim/sim.h"

#include <mito/geometry.h>
#include <mito/fields.h>
#include <mito/tensor.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <optional>

using namespace sim;
namespace fun = mito::functions;
namespace fld = mito::fields;
namespace ten = mito::tensor;
namespace geo = mito::geometry;

namespace {
    using vec = ten::vector_t<3>;
    using ten::_;
    using dummy = std::remove_cvref_t<decltype(_)>;

    // ---------------------------------------------------------------- forms of any make
    struct F1 {
        struct Base {
            virtual ~Base() = default;
            virtual double at(const vec &) const = 0;
            virtual Base * clone() const = 0;
        };
        template <class E>
        struct Node : Base {
            E e;
            Node(const E & x) : e(x) {}
            double at(const vec & v) const override { return e(v); }
            Base * clone() const override { return new Node(*this); }
        };
        std::unique_ptr<Base> p;
        F1() = default;
        F1(const F1 & o) : p(o.p ? o.p->clone() : nullptr) {}
        F1(F1 &&) = default;
        F1 & operator=(F1 && o) = default;
        double operator()(const vec & v) const { return p->at(v); }
    };
    using A1 = ten::Form<1, F1>;
    template <class E>
    A1 wrap1(const E & e)
    {
        F1 f;
        f.p.reset(new F1::Node<E>(e));
        return ten::one_form(std::move(f));
    }
    struct F2 {
        struct Base {
            virtual ~Base() = default;
            virtual double at(const vec &, const vec &) const = 0;
            virtual A1 left(const vec &) const = 0;
            virtual A1 right(const vec &) const = 0;
            virtual Base * clone() const = 0;
        };
        template <class E>
        struct Node : Base {
            E e;
            Node(const E & x) : e(x) {}
            double at(const vec & v, const vec & w) const override { return e(v, w); }
            A1 left(const vec & v) const override { return wrap1(e(v, _)); }
            A1 right(const vec & v) const override { return wrap1(e(_, v)); }
            Base * clone() const override { return new Node(*this); }
        };
        std::unique_ptr<Base> p;
        F2() = default;
        F2(const F2 & o) : p(o.p ? o.p->clone() : nullptr) {}
        F2(F2 &&) = default;
        F2 & operator=(F2 && o) = default;
        double operator()(const vec & v, const vec & w) const { return p->at(v, w); }
        A1 operator()(const vec & v, const dummy &) const { return p->left(v); }
        A1 operator()(const dummy &, const vec & v) const { return p->right(v); }
    };
    using A2 = ten::Form<2, F2>;
    template <class E>
    A2 wrap2(const E & e)
    {
        F2 f;
        f.p.reset(new F2::Node<E>(e));
        return ten::form<2>(std::move(f));
    }
    struct F3 {
        struct Base {
            virtual ~Base() = default;
            virtual double at(const vec &, const vec &, const vec &) const = 0;
            virtual A2 one(int, const vec &) const = 0;
            virtual A1 two(int, const vec &, const vec &) const = 0;
            virtual Base * clone() const = 0;
        };
        // {full}: it can be contracted in part
        template <class E, bool full>
        struct Node : Base {
            E e;
            Node(const E & x) : e(x) {}
            double at(const vec & u, const vec & v, const vec & w) const override { return e(u, v, w); }
            A2 one(int i, const vec & v) const override
            {
                if constexpr (full) {
                    if (i == 0) return wrap2(e(v, _, _));
                    if (i == 1) return wrap2(e(_, v, _));
                    return wrap2(e(_, _, v));
                } else
                    throw std::logic_error("harness: no partial contraction");
            }
            A1 two(int i, const vec & v, const vec & w) const override
            {
                if constexpr (full) {
                    if (i == 0) return wrap1(e(_, v, w));
                    if (i == 1) return wrap1(e(v, _, w));
                    return wrap1(e(v, w, _));
                } else
                    throw std::logic_error("harness: no partial contraction");
            }
            Base * clone() const override { return new Node(*this); }
        };
        std::unique_ptr<Base> p;
        F3() = default;
        F3(const F3 & o) : p(o.p ? o.p->clone() : nullptr) {}
        F3(F3 &&) = default;
        F3 & operator=(F3 && o) = default;
        double operator()(const vec & u, const vec & v, const vec & w) const { return p->at(u, v, w); }
        A2 operator()(const vec & v, const dummy &, const dummy &) const { return p->one(0, v); }
        A2 operator()(const dummy &, const vec & v, const dummy &) const { return p->one(1, v); }
        A2 operator()(const dummy &, const dummy &, const vec & v) const { return p->one(2, v); }
        A1 operator()(const dummy &, const vec & v, const vec & w) const { return p->two(0, v, w); }
        A1 operator()(const vec & v, const dummy &, const vec & w) const { return p->two(1, v, w); }
        A1 operator()(const vec & v, const vec & w, const dummy &) const { return p->two(2, v, w); }
    };
    using A3 = ten::Form<3, F3>;
    template <bool full, class E>
    A3 wrap3(const E & e)
    {
        F3 f;
        f.p.reset(new F3::Node<E, full>(e));
        return ten::form<3>(std::move(f));
    }

    // a functor with state of its own
    struct Weights {
        std::unique_ptr<double[]> w;
        explicit Weights(const double * c) : w(new double[3]) { std::copy(c, c + 3, w.get()); }
        Weights(const Weights & o) : Weights(o.w.get()) {}
        Weights(Weights &&) = default;
        double operator()(const vec & v) const { return w[0] * v[0] + w[1] * v[1] + w[2] * v[2]; }
    };

    enum { K_VECTOR, K_METRIC, K_FUNCTOR, K_LOCAL, K_ALG1, K_TWO, K_ALG2, K_THREE, K_ALG3, K_CONTRACT2, K_CONTRACT3, K_DROP, K_FIELD, K_SPACE, K_COPY };

    void gen_any(Rng & r, Plan & p, int tier, int faults)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 3);
        p.cfg["faults"] = faults;
        i64 n = r.range(6, tier ? 90 : 40);
        Swarm sw(r, { { K_VECTOR, 3 }, { K_METRIC, 2 }, { K_FUNCTOR, 1 }, { K_LOCAL, 1 }, { K_ALG1, 2 }, { K_TWO, 4 }, { K_ALG2, 2 }, { K_THREE, 3 }, { K_ALG3, 2 }, { K_CONTRACT2, 2 }, { K_CONTRACT3, 2 }, { K_DROP, 3 }, { K_FIELD, 2 }, { K_SPACE, 2 }, { K_COPY, 1 } }, { K_VECTOR });
        Scheduler sc(r, (int) p.cfg["clients"]);
        i64 span = r.pick({ 3, 10, 40 });
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), i < 2 ? (i64) K_VECTOR : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (faults && o.kind != K_DROP && o.kind != K_SPACE && r.chance(0.25)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_plain(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 0); }
    void gen_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 1); }

    template <class A>
    struct Item {
        std::optional<A> f;
        std::vector<double> t;    // components
        bool alternating = false, full = true;
        std::string how;
    };
    vec vector_of(Rng & r)
    {
        vec v;
        for (int i = 0; i < 3; ++i) v[i] = (double) r.range(-8, 8) / 4;
        return v;
    }
    double sgn(int i, int j, int k) { return (double) ((j - i) * (k - j) * (k - i)) / 2; }

    struct Runner {
        const Plan & plan;
        std::vector<Item<A1>> one;
        std::vector<Item<A2>> two;
        std::vector<Item<A3>> three;
        const char * what = "";
        explicit Runner(const Plan & p) : plan(p) {}

        template <class A, class Build>
        void put(const Op & op, std::vector<Item<A>> & pool, std::vector<double> t, bool alternating, bool full, std::string how, Build && build)
        {
            for (double x : t)
                if (std::fabs(x) > 1e4) return;
            if (how.size() > 400) return;
            Item<A> it;
            it.t = std::move(t);
            it.alternating = alternating;
            it.full = full;
            it.how = std::move(how);
            Outcome o = act(op, [&] { it.f.emplace(build()); });
            if (!o.ok) {
                if (!op.fk || !o.bad_alloc) fail("C03/refused", "%s: building %s threw: %s", what, it.how.c_str(), o.bad_alloc ? "bad_alloc" : o.what.c_str());
                probe("building-failed");
                Op again = op;
                again.fk = 0;
                if (!act(again, [&] { it.f.emplace(build()); }).ok) fail("C03/refused", "%s: %s cannot be built although the fault is over", what, it.how.c_str());
            }
            if (pool.size() >= 7) drop(pool, op.d);
            pool.push_back(std::move(it));
        }
        template <class A>
        void drop(std::vector<Item<A>> & pool, i64 r)
        {
            if (pool.empty()) return;
            size_t i = (size_t) (r % (i64) pool.size());
            {
                Sut in;
                pool[i].f.reset();
            }
            pool.erase(pool.begin() + (long) i);
        }
        template <class A>
        static const Item<A> * pick(const std::vector<Item<A>> & pool, i64 r)
        {
            return pool.empty() ? nullptr : &pool[(size_t) (r % (i64) pool.size())];
        }
        static std::vector<double> lin(double a, const std::vector<double> & x, double b, const std::vector<double> & y)
        {
            std::vector<double> o;
            for (size_t i = 0; i < x.size(); ++i) o.push_back(a * x[i] + b * y[i]);
            return o;
        }
        static std::vector<double> outer(const std::vector<double> & x, const std::vector<double> & y)
        {
            std::vector<double> o;
            for (double a : x)
                for (double b : y) o.push_back(a * b);
            return o;
        }
        static std::vector<double> wedge2(const std::vector<double> & x, const std::vector<double> & y) { return lin(1, outer(x, y), -1, outer(y, x)); }
        static std::vector<double> transposed(const std::vector<double> & x)
        {
            std::vector<double> o(9);
            for (size_t i = 0; i < 3; ++i)
                for (size_t j = 0; j < 3; ++j) o[i * 3 + j] = x[j * 3 + i];
            return o;
        }
        static double real_of(i64 r) { return (double) (r % 17 - 8) / 4; }

        // sums, differences and multiples of forms of one degree
        template <class A, class Wrap>
        void algebra(const Op & op, std::vector<Item<A>> & pool, Wrap wrap)
        {
            const auto *f = pick(pool, op.a), *g = pick(pool, op.b);
            if (!f) return;
            double a = real_of(op.d);
            bool alt = f->alternating && g->alternating, full = f->full && g->full;
            if (!full) return;
            std::string two = "(" + f->how + "," + g->how + ")";
            switch (op.c % 5) {
            case 0: put(op, pool, lin(1, f->t, 1, g->t), alt, full, "+" + two, [&] { return wrap(*f->f + *g->f); }); break;
            case 1: put(op, pool, lin(1, f->t, -1, g->t), alt, full, "-" + two, [&] { return wrap(*f->f - *g->f); }); break;
            case 2: put(op, pool, lin(a, f->t, 0, f->t), f->alternating, full, "a*(" + f->how + ")", [&] { return wrap(a * *f->f); }); break;
            case 3: put(op, pool, lin(a, f->t, 0, f->t), f->alternating, full, "(" + f->how + ")*a", [&] { return wrap(*f->f * a); }); break;
            default: put(op, pool, lin(-1, f->t, 0, f->t), f->alternating, full, "-(" + f->how + ")", [&] { return wrap(-*f->f); }); break;
            }
        }
        void step(const Op & op)
        {
            Rng r((u64) (op.a * 31 + op.b * 17 + op.c * 7 + op.d));
            switch (op.kind) {
            case K_VECTOR: {
                what = "one-form of a vector";
                const vec v = vector_of(r);
                put(op, one, { v[0], v[1], v[2] }, true, true, "v", [&] { return wrap1(ten::one_form(v)); });
                break;
            }
            case K_METRIC: {
                what = "one-form of a vector and a metric";
                const vec v = vector_of(r);
                if (op.c % 2) {
                    ten::diagonal_matrix_t<3> m { real_of(op.a), real_of(op.b), real_of(op.d) };
                    put(op, one, { m[{ 0, 0 }] * v[0], m[{ 1, 1 }] * v[1], m[{ 2, 2 }] * v[2] }, true, true, "diag v", [&] { return wrap1(ten::one_form(v, m)); });
                } else {
                    double q[6];
                    for (auto & x : q) x = (double) r.range(-8, 8) / 4;
                    ten::symmetric_matrix_t<3> m { q[0], q[1], q[2], q[3], q[4], q[5] };
                    std::vector<double> t(3);
                    for (int i = 0; i < 3; ++i)
                        for (int j = 0; j < 3; ++j) t[(size_t) i] += m[{ i, j }] * v[j];
                    put(op, one, t, true, true, "sym v", [&] { return wrap1(ten::one_form(v, m)); });
                }
                break;
            }
            case K_FUNCTOR:
            case K_LOCAL: {
                what = op.kind == K_FUNCTOR ? "one-form of a functor" : "one-form of a functor that goes away";
                double c[3];
                for (auto & x : c) x = (double) r.range(-8, 8) / 4;
                std::vector<double> t { c[0], c[1], c[2] };
                if (op.kind == K_FUNCTOR) put(op, one, t, true, true, "functor", [&] { return wrap1(ten::one_form(Weights(c))); });
                else
                    put(op, one, t, true, true, "local", [&] {
                        auto w = std::make_unique<Weights>(c);
                        return wrap1(ten::one_form(*w));
                    });
                break;
            }
            case K_ALG1: {
                what = "algebra of one-forms";
                if (op.c % 7 == 6) {
                    const auto * f = pick(one, op.a);
                    if (!f) break;
                    double a = real_of(op.d);
                    if (op.d % 4 == 0) put(op, one, f->t, true, true, "(" + f->how + ")(_)", [&] { return wrap1((*f->f)(_)); });
                    else if (op.d % 4 == 1)
                        put(op, one, f->t, true, true, "wedge(" + f->how + ")", [&] { return wrap1(ten::wedge(*f->f)); });
                    else if (op.d % 4 == 2)
                        put(op, one, lin(a, f->t, 0, f->t), true, true, "wedge(a," + f->how + ")", [&] { return wrap1(ten::wedge(a, *f->f)); });
                    else
                        put(op, one, lin(a, f->t, 0, f->t), true, true, "wedge(" + f->how + ",a)", [&] { return wrap1(ten::wedge(*f->f, a)); });
                } else
                    algebra(op, one, [](const auto & e) { return wrap1(e); });
                break;
            }
            case K_TWO: {
                what = "product of two one-forms";
                const auto *f = pick(one, op.a), *g = pick(one, op.b);
                if (!f) break;
                std::string two_ = "(" + f->how + "," + g->how + ")";
                if (op.c % 3 == 0) put(op, two, outer(f->t, g->t), false, true, "tensor" + two_, [&] { return wrap2(ten::tensor(*f->f, *g->f)); });
                else if (op.c % 3 == 1)
                    put(op, two, outer(f->t, g->t), false, true, "times" + two_, [&] { return wrap2(*f->f * *g->f); });
                else
                    put(op, two, wedge2(f->t, g->t), true, true, "wedge" + two_, [&] { return wrap2(ten::wedge(*f->f, *g->f)); });
                break;
            }
            case K_ALG2: {
                what = "algebra of two-forms";
                algebra(op, two, [](const auto & e) { return wrap2(e); });
                break;
            }
            case K_THREE: {
                what = "three-form";
                const auto *f = pick(one, op.a), *g = pick(one, op.b), *h = pick(one, op.d);
                if (!f) break;
                std::string of = "(" + f->how + "," + g->how + "," + h->how + ")";
                std::vector<double> t = outer(outer(f->t, g->t), h->t), w(27);
                if (op.c % 3 == 0) put(op, three, t, false, true, "tensor" + of, [&] { return wrap3<true>(ten::tensor(*f->f, *g->f, *h->f)); });
                else if (op.c % 3 == 1) {
                    double d = 0;
                    for (int i = 0; i < 3; ++i)
                        for (int j = 0; j < 3; ++j)
                            for (int k = 0; k < 3; ++k) d += sgn(i, j, k) * t[(size_t) (9 * i + 3 * j + k)];
                    for (int i = 0; i < 3; ++i)
                        for (int j = 0; j < 3; ++j)
                            for (int k = 0; k < 3; ++k) w[(size_t) (9 * i + 3 * j + k)] = sgn(i, j, k) * d;
                    put(op, three, w, true, true, "wedge" + of, [&] { return wrap3<true>(ten::wedge(*f->f, *g->f, *h->f)); });
                } else {
                    const auto * q = pick(two, op.b);
                    if (!q || !q->alternating) break;
                    for (size_t i = 0; i < 3; ++i)
                        for (size_t j = 0; j < 3; ++j)
                            for (size_t k = 0; k < 3; ++k) w[9 * i + 3 * j + k] = f->t[i] * q->t[3 * j + k] - f->t[j] * q->t[3 * i + k] + f->t[k] * q->t[3 * i + j];
                    probe("wedge-of-one-and-two");
                    put(op, three, w, true, false, "wedge(" + f->how + "," + q->how + ")", [&] { return wrap3<false>(ten::wedge(*f->f, *q->f)); });
                }
                break;
            }
            case K_ALG3: {
                what = "algebra of three-forms";
                algebra(op, three, [](const auto & e) { return wrap3<true>(e); });
                break;
            }
            case K_CONTRACT2: {
                what = "contraction of a two-form";
                const auto * f = pick(two, op.a);
                if (!f) break;
                const vec v = vector_of(r);
                std::vector<double> t(3);
                for (size_t i = 0; i < 3; ++i)
                    for (size_t j = 0; j < 3; ++j) t[i] += op.c % 2 ? f->t[3 * j + i] * v[(int) j] : f->t[3 * i + j] * v[(int) j];
                if (op.c % 2) put(op, one, t, true, true, "(" + f->how + ")(v,_)", [&] { return wrap1((*f->f)(v, _)); });
                else
                    put(op, one, t, true, true, "(" + f->how + ")(_,v)", [&] { return wrap1((*f->f)(_, v)); });
                break;
            }
            case K_CONTRACT3: {
                what = "contraction of a three-form";
                const auto * f = pick(three, op.a);
                if (!f || !f->full) break;
                vec v = vector_of(r), w = vector_of(r);
                std::vector<double> t2(9), t1(3);
                int slot = (int) (op.c % 3);
                for (size_t i = 0; i < 3; ++i)
                    for (size_t j = 0; j < 3; ++j)
                        for (size_t k = 0; k < 3; ++k) {
                            size_t n = slot == 0 ? 9 * k + 3 * i + j : slot == 1 ? 9 * i + 3 * k + j : 9 * i + 3 * j + k;
                            t2[3 * i + j] += f->t[n] * v[(int) k];
                        }
                // the free slot is {slot}; v and w go to the others, in order
                for (size_t i = 0; i < 3; ++i)
                    for (size_t j = 0; j < 3; ++j)
                        for (size_t k = 0; k < 3; ++k) {
                            size_t n = slot == 0 ? 9 * i + 3 * j + k : slot == 1 ? 9 * j + 3 * i + k : 9 * j + 3 * k + i;
                            t1[i] += f->t[n] * v[(int) j] * w[(int) k];
                        }
                probe("contraction-of-three-form");
                if (op.b % 2) {
                    if (slot == 0) put(op, two, t2, f->alternating, true, "(" + f->how + ")(v,_,_)", [&] { return wrap2((*f->f)(v, _, _)); });
                    if (slot == 1) put(op, two, t2, f->alternating, true, "(" + f->how + ")(_,v,_)", [&] { return wrap2((*f->f)(_, v, _)); });
                    if (slot == 2) put(op, two, t2, f->alternating, true, "(" + f->how + ")(_,_,v)", [&] { return wrap2((*f->f)(_, _, v)); });
                } else {
                    if (slot == 0) put(op, one, t1, true, true, "(" + f->how + ")(_,v,w)", [&] { return wrap1((*f->f)(_, v, w)); });
                    if (slot == 1) put(op, one, t1, true, true, "(" + f->how + ")(v,_,w)", [&] { return wrap1((*f->f)(v, _, w)); });
                    if (slot == 2) put(op, one, t1, true, true, "(" + f->how + ")(v,w,_)", [&] { return wrap1((*f->f)(v, w, _)); });
                }
                break;
            }
            case K_COPY: {
                what = "copy";
                if (op.c % 3 == 0)
                    if (auto * f = pick(one, op.a)) put(op, one, f->t, f->alternating, f->full, f->how, [&] { return *f->f; });
                if (op.c % 3 == 1)
                    if (auto * f = pick(two, op.a)) put(op, two, f->t, f->alternating, f->full, f->how, [&] { return *f->f; });
                if (op.c % 3 == 2)
                    if (auto * f = pick(three, op.a)) put(op, three, f->t, f->alternating, f->full, f->how, [&] { return *f->f; });
                break;
            }
            case K_DROP: {
                what = "drop";
                if (op.c % 3 == 0) drop(one, op.a);
                if (op.c % 3 == 1) drop(two, op.a);
                if (op.c % 3 == 2) drop(three, op.a);
                break;
            }
            case K_FIELD: {
                what = "field of forms";
                fields(op, r);
                break;
            }
            case K_SPACE: {
                what = "metric space";
                if (op.c % 4 == 0) space<geo::coordinates_t<2, geo::CARTESIAN>>(op, r);
                if (op.c % 4 == 1) space<geo::coordinates_t<2, geo::POLAR>>(op, r);
                if (op.c % 4 == 2) space<geo::coordinates_t<3, geo::CARTESIAN>>(op, r);
                if (op.c % 4 == 3) space<geo::coordinates_t<3, geo::SPHERICAL>>(op, r);
                break;
            }
            }
        }
        // a field of one-forms whose components vary with the first two coordinates
        using place = geo::coordinates_t<3, geo::CARTESIAN>;
        struct Varying {
            F1 a, b;
            A1 operator()(const place & x) const
            {
                return wrap1(A1(a) * (1 + x[0]) + A1(b) * x[1]);
            }
        };
        void fields(const Op & op, Rng & r)
        {
            const auto *f = pick(one, op.a), *g = pick(one, op.b), *h = pick(one, op.d);
            if (!f) return;
            double v[3][3];
            vec V[3];
            for (int i = 0; i < 3; ++i) {
                V[i] = vector_of(r);
                for (int j = 0; j < 3; ++j) v[i][j] = V[i][j];
            }
            double x0 = (double) r.range(-8, 8) / 4, x1 = (double) r.range(-8, 8) / 4;
            auto comp = [&](const Item<A1> * p, const Item<A1> * q, int i) {
                double y = 0;
                for (size_t j = 0; j < 3; ++j) y += ((1 + x0) * p->t[j] + x1 * q->t[j]) * v[i][j];
                return y;
            };
            double a[3], b[3], c[3], want = 0;
            for (int i = 0; i < 3; ++i) a[i] = comp(f, g, i), b[i] = comp(g, h, i), c[i] = comp(h, f, i);
            double mag = 1;
            for (int i = 0; i < 3; ++i) mag = std::max({ mag, std::fabs(a[i]), std::fabs(b[i]), std::fabs(c[i]) });
            switch (op.c % 5) {
            case 0: want = a[0]; break;
            case 1: want = a[0] * b[1]; break;
            case 2: want = a[0] * b[1] - a[1] * b[0]; break;
            case 3: want = a[0] * b[1] * c[2]; break;
            default:
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j)
                        for (int k = 0; k < 3; ++k) want += sgn(i, j, k) * a[i] * b[j] * c[k];
            }
            double got = 0;
            // the parts are gone by the time the field is evaluated
            auto evaluate = [&] {
                auto wrap = [](const A1 & p) {
                    F1 w;
                    w.p.reset(new F1::Node<A1>(p));
                    return w;
                };
                auto field = [&](const Item<A1> * p, const Item<A1> * q) { return fun::function(Varying { wrap(*p->f), wrap(*q->f) }); };
                using T = decltype(field(f, g));
                auto A = std::make_unique<T>(field(f, g)), B = std::make_unique<T>(field(g, h)), C = std::make_unique<T>(field(h, f));
                place x { x0, x1, 0.5 };
                switch (op.c % 5) {
                case 0: {
                    auto y = fld::wedge(*A);
                    A.reset();
                    got = y(x)(V[0]);
                    break;
                }
                case 1: {
                    auto y = fld::tensor(*A, *B);
                    A.reset();
                    B.reset();
                    got = y(x)(V[0], V[1]);
                    break;
                }
                case 2: {
                    auto y = fld::wedge(*A, *B);
                    A.reset();
                    B.reset();
                    got = y(x)(V[0], V[1]);
                    break;
                }
                case 3: {
                    auto y = fld::tensor(*A, *B, *C);
                    A.reset();
                    B.reset();
                    C.reset();
                    got = y(x)(V[0], V[1], V[2]);
                    break;
                }
                default: {
                    auto y = fld::wedge(*A, *B, *C);
                    A.reset();
                    B.reset();
                    C.reset();
                    got = y(x)(V[0], V[1], V[2]);
                }
                }
            };
            Outcome o = act(op, evaluate);
            if (!o.ok) {
                if (!op.fk || !o.bad_alloc) fail("C03/refused", "a field of forms cannot be evaluated: %s", o.bad_alloc ? "bad_alloc" : o.what.c_str());
                Op again = op;
                again.fk = 0;
                if (!act(again, evaluate).ok) fail("C03/refused", "a field of forms cannot be evaluated although the fault is over");
            }
            probe("field-of-forms");
            if (!(std::fabs(got - want) <= 1e-10 * mag * mag * mag)) fail("C03/field", "a field of forms (%lld) has the value %.12g, should be %.12g", (long long) (op.c % 5), got, want);
        }
        template <class X>
        void space(const Op & op, Rng & r)
        {
            constexpr int D = X::dim;
            using M = geo::metric_space<X>;
            using vecD = ten::vector_t<D>;
            constexpr bool polar = std::is_same_v<X, geo::coordinates_t<2, geo::POLAR>>, spherical = std::is_same_v<X, geo::coordinates_t<3, geo::SPHERICAL>>;
            double q[3] = { 0.25 + (double) r.range(0, 24) / 8, (double) r.range(-24, 24) / 8, (double) r.range(-24, 24) / 8 };
            if (spherical) q[1] = 0.2 + (double) r.range(0, 21) / 8;
            X x;
            if constexpr (D == 2) x = X { q[0], q[1] };
            else
                x = X { q[0], q[1], q[2] };
            // lengths of the coordinate directions
            double len[3] = { 1, 1, 1 };
            if (polar || spherical) len[1] = q[0];
            if (spherical) len[2] = q[0] * std::sin(q[1]);
            double vol = len[0] * len[1] * len[2];
            auto bad = [&](const char * w, double got, double want) {
                fail("C03/metric", "%s of %s coordinates at (%g, %g, %g): %.12g, should be %.12g", w, spherical ? "spherical" : polar ? "polar" : "cartesian", q[0], q[1], D > 2 ? q[2] : 0., got, want);
            };
            auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-10 * (1 + std::fabs(a) + std::fabs(b)); };
            vecD e[3], v[3];
            double gram[D][D], ginv[D][D], dual[D][D], volume = 0, volume_of = 0, sharp[D], flat[D], back[D];
            double c[3];
            for (int i = 0; i < D; ++i) {
                vec w = vector_of(r);
                for (int j = 0; j < D; ++j) v[i][j] = w[j];
                c[i] = (double) r.range(-8, 8) / 4;
            }
            // a form field, its equivalent vector field, and back
            auto all = [&] {
                [&]<int... I>(std::integer_sequence<int, I...>) {
                    ((e[I] = M::template e<I>(x)), ...);
                    auto one = [&]<int J>() {
                        auto f = M::template dx<J>(x);
                        for (int i = 0; i < D; ++i) dual[J][i] = f(e[i]);
                    };
                    (one.template operator()<I>(), ...);
                    auto g = M::g(x);
                    auto h = M::g_inv(x);
                    for (int i = 0; i < D; ++i)
                        for (int j = 0; j < D; ++j) gram[i][j] = g[{ i, j }], ginv[i][j] = h[{ i, j }];
                    volume = M::w(x)(e[I]...);
                    volume_of = M::w(x)(v[I]...);
                    auto alpha = ((c[I] * M::template dx<I>) + ...);
                    auto u = M::metric_equivalent(alpha);
                    auto ux = u(x);
                    for (int i = 0; i < D; ++i) sharp[i] = ux[i];
                    auto again = M::metric_equivalent(u);
                    auto ax = again(x);
                    for (int i = 0; i < D; ++i) back[i] = ax(e[i]), flat[i] = alpha(x)(e[i]);
                }(std::make_integer_sequence<int, D> {});
            };
            Outcome o = act(op, all);
            if (!o.ok) fail("C03/refused", "a metric space cannot be evaluated: %s", o.what.c_str());
            for (int i = 0; i < D; ++i)
                for (int j = 0; j < D; ++j) {
                    double want = i == j ? len[i] : 0;
                    if (!same(e[i][j], want)) bad("a basis vector", e[i][j], want);
                    if (!same(dual[i][j], i == j)) bad("a basis form, applied to a basis vector,", dual[i][j], i == j);
                    if (!same(gram[i][j], i == j ? len[i] * len[i] : 0)) bad("the metric", gram[i][j], i == j ? len[i] * len[i] : 0);
                    if (!same(ginv[i][j], i == j ? 1 / (len[i] * len[i]) : 0)) bad("the inverse metric", ginv[i][j], i == j ? 1 / (len[i] * len[i]) : 0);
                }
            if (!same(volume, vol)) bad("the volume form, applied to the basis,", volume, vol);
            double det = 0;
            if constexpr (D == 2) det = v[0][0] * v[1][1] - v[0][1] * v[1][0];
            else
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j)
                        for (int k = 0; k < 3; ++k) det += sgn(i, j, k) * v[0][i] * v[1][j] * v[2][k];
            if (!(std::fabs(volume_of - det) <= 1e-9)) bad("the volume form", volume_of, det);
            for (int i = 0; i < D; ++i) {
                if (!same(flat[i], c[i])) bad("a form, applied to a basis vector,", flat[i], c[i]);
                if (!same(sharp[i], c[i] / len[i])) bad("the vector equivalent to a form", sharp[i], c[i] / len[i]);
                if (!same(back[i], c[i])) bad("the form equivalent to the vector equivalent to a form", back[i], c[i]);
            }
            // there and back
            if constexpr (polar || spherical) {
                using C = geo::coordinates_t<D, geo::CARTESIAN>;
                double y[3], z[3] = { 0, 0, 0 };
                Op plain = op;
                plain.fk = 0;
                act(plain, [&] {
                    C p = geo::transform_coordinates<C>(x);
                    X w = geo::transform_coordinates<X>(p);
                    for (int i = 0; i < D; ++i) y[i] = p[i], z[i] = w[i];
                });
                double at[3] = { q[0] * std::cos(q[1]), q[0] * std::sin(q[1]), 0 };
                if (spherical) at[0] = q[0] * std::sin(q[1]) * std::cos(q[2]), at[1] = q[0] * std::sin(q[1]) * std::sin(q[2]), at[2] = q[0] * std::cos(q[1]);
                for (int i = 0; i < D; ++i) {
                    if (!same(y[i], at[i])) bad("the cartesian position", y[i], at[i]);
                    // (angles in (-pi, pi))
                    if (!same(z[i], q[i])) bad("the position, there and back,", z[i], q[i]);
                }
            }
            probe("metric-space");
        }
        void check(Rng & r, u64 & s)
        {
            vec V[3] = { vector_of(r), vector_of(r), vector_of(r) };
            auto judge = [&](const char * how, double got, double want, double mag) {
                if (!(std::fabs(got - want) <= 1e-11 * (1 + mag))) fail("C03/value", "after %s: %s has the value %.12g, should be %.12g", what, how, got, want);
                s = hcomb(s, hstr(how));
            };
            for (auto & it : one) {
                double got, want = 0, mag = 0;
                {
                    Sut in;
                    got = (*it.f)(V[0]);
                }
                for (size_t i = 0; i < 3; ++i) want += it.t[i] * V[0][(int) i], mag += std::fabs(it.t[i]) * 4;
                judge(it.how.c_str(), got, want, mag);
            }
            for (auto & it : two) {
                double got, want = 0, mag = 0;
                {
                    Sut in;
                    got = (*it.f)(V[0], V[1]);
                }
                for (size_t i = 0; i < 3; ++i)
                    for (size_t j = 0; j < 3; ++j) want += it.t[3 * i + j] * V[0][(int) i] * V[1][(int) j], mag += std::fabs(it.t[3 * i + j]) * 16;
                judge(it.how.c_str(), got, want, mag);
            }
            for (auto & it : three) {
                double got, want = 0, mag = 0;
                {
                    Sut in;
                    got = (*it.f)(V[0], V[1], V[2]);
                }
                for (size_t i = 0; i < 3; ++i)
                    for (size_t j = 0; j < 3; ++j)
                        for (size_t k = 0; k < 3; ++k) want += it.t[9 * i + 3 * j + k] * V[0][(int) i] * V[1][(int) j] * V[2][(int) k], mag += std::fabs(it.t[9 * i + 3 * j + k]) * 64;
                judge(it.how.c_str(), got, want, mag);
            }
        }
    };
    void run_forms(const Plan & p)
    {
        start_memory(p);
        Runner R(p);
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            R.what = "nothing";
            R.step(op);
            Rng r((u64) (op.a + 3 * op.b + 5 * op.c + 7 * op.d + step));
            u64 h = 3;
            R.check(r, h);
            state(h);
            log("%lld k%lld %s %zu %zu %zu", (long long) step, (long long) op.kind, R.what, R.one.size(), R.two.size(), R.three.size());
        }
        while (R.one.size()) R.drop(R.one, 0);
        while (R.two.size()) R.drop(R.two, 0);
        while (R.three.size()) R.drop(R.three, 0);
        if (mem::live_blocks()) fail("C03/leak", "%lld blocks of memory are left when every form is gone", (long long) mem::live_blocks());
    }
    Registrar reg_forms("forms", gen_plain, run_forms), reg_forms_f("forms_faults", gen_faults, run_forms);
}
