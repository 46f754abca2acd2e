// The topology: several clients create, look up, flip, take apart and erase simplices over a small
// set of shared vertices. The oracle is a reference model in terms of vertex sets and permutation
// parities; it never looks at how the factories index their simplices.
#include "../sim/sim.h"

#include <mito/topology.h>
#include <algorithm>
#include <array>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <variant>
#include <vector>

using namespace sim;
namespace top = mito::topology;

namespace {
    template <int N>
    using foot_t = top::unoriented_simplex_t<N>;
    using handle_v = std::variant<top::vertex_t, top::simplex_t<0>, top::simplex_t<1>, top::simplex_t<2>, top::simplex_t<3>, foot_t<1>, foot_t<2>, foot_t<3>>;

    // sign of the permutation that takes {a} to {b} (both list the same distinct items)
    int parity(const std::vector<int> & a, const std::vector<int> & b)
    {
        std::vector<int> p;
        for (int x : a) p.push_back((int) (std::find(b.begin(), b.end(), x) - b.begin()));
        int s = 1;
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t j = i + 1; j < p.size(); ++j)
                if (p[i] > p[j]) s = -s;
        return s;
    }
    std::vector<int> sorted(std::vector<int> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    }

    // ------------------------------------------------------------------ the reference model
    struct Ref {
        int foot = -1;
        int sign = 0;    // +1, -1; 0: the footprint itself
        bool operator==(const Ref & o) const { return foot == o.foot && sign == o.sign; }
        bool operator<(const Ref & o) const { return foot < o.foot || (foot == o.foot && sign < o.sign); }
    };
    struct Foot {
        int n = 0;
        std::vector<int> order;    // vertices in the order of the positive orientation
        std::vector<Ref> comp;     // facets
        bool reg = true;           // known to the topology
        int held = 0;              // handles on the footprint
        bool there[2] = { false, false };
        int held_o[2] = { 0, 0 };
        const void * addr[2] = { nullptr, nullptr };
        const void * faddr = nullptr;
    };
    int ix(int sign) { return sign > 0 ? 1 : 0; }

    struct Model {
        std::vector<Foot> feet;
        std::map<std::vector<int>, int> by_vertices;    // registered footprints of dimension >= 1
        int count[4] = { 0, 0, 0, 0 };

        int uses(const Ref & r) const
        {
            int n = feet[(size_t) r.foot].held_o[ix(r.sign)];
            for (auto & f : feet)
                if (f.reg)
                    for (auto & c : f.comp) n += c == r;
            return n;
        }
        int uses_foot(int f) const
        {
            auto & x = feet[(size_t) f];
            return x.held + x.there[0] + x.there[1];
        }
        Ref orient(int f, int sign)
        {
            auto & x = feet[(size_t) f];
            if (!x.there[ix(sign)]) {
                x.there[ix(sign)] = true;
                x.addr[ix(sign)] = nullptr;
                ++count[x.n];
            }
            return Ref { f, sign };
        }
        int vertex()
        {
            Foot f;
            f.order = { (int) feet.size() };
            feet.push_back(f);
            return (int) feet.size() - 1;
        }
        // the simplex with these vertices (in order), made of {comp} if it is new
        Ref put(const std::vector<int> & v, const std::vector<Ref> & comp)
        {
            auto k = sorted(v);
            auto it = by_vertices.find(k);
            if (it == by_vertices.end()) {
                Foot f;
                f.n = (int) v.size() - 1;
                f.order = v;
                f.comp = comp;
                feet.push_back(f);
                it = by_vertices.emplace(k, (int) feet.size() - 1).first;
            }
            return orient(it->second, parity(v, feet[(size_t) it->second].order));
        }
        Ref create(const std::vector<int> & v)
        {
            if (v.size() == 2) {
                Ref a = orient(v[0], -1), b = orient(v[1], +1);
                return put(v, { a, b });
            }
            if (v.size() == 3) {
                Ref a = create({ v[0], v[1] }), b = create({ v[1], v[2] }), c = create({ v[2], v[0] });
                return put(v, { a, b, c });
            }
            Ref a = create({ v[0], v[1], v[2] }), b = create({ v[1], v[3], v[2] }), c = create({ v[3], v[1], v[0] }), d = create({ v[3], v[0], v[2] });
            return put(v, { a, b, c, d });
        }
        std::vector<int> vertices(const Ref & r) const
        {
            auto v = feet[(size_t) r.foot].order;
            if (r.sign < 0 && v.size() > 1) std::swap(v[0], v[1]);
            return v;
        }
        // nothing else uses {r}: it goes, and what only it used goes with it
        void remove(const Ref & r)
        {
            auto & x = feet[(size_t) r.foot];
            x.there[ix(r.sign)] = false;
            --count[x.n];
            if (uses_foot(r.foot) == 0) {
                x.reg = false;
                if (x.n > 0) by_vertices.erase(sorted(x.order));
            }
            for (auto & s : std::vector<Ref>(x.comp))
                if (feet[(size_t) s.foot].there[ix(s.sign)] && uses(s) == 0) remove(s);
        }
        // is there an oriented simplex with these vertices in this order?
        bool exists(const std::vector<int> & v) const
        {
            auto it = by_vertices.find(sorted(v));
            if (it == by_vertices.end()) return false;
            auto & f = feet[(size_t) it->second];
            return f.there[ix(parity(v, f.order))];
        }
    };

    enum {
        O_VERTEX, O_CREATE, O_CREATE_LOW, O_RECREATE, O_COMPOSE, O_FLIP, O_FLIP2, O_COPY, O_DROP, O_ERASE, O_EXTRACT, O_EXTRACT_FOOT, O_VERTICES,
        O_ASK_SEGMENT, O_ASK_COMP, O_ASK_FLIPPED, O_INVALID, O_ORIENT, O_GIVE, O_CHURN
    };

    void gen_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 4);
        p.cfg["vertices"] = r.range(2, 8);
        p.cfg["faults"] = mode;
        i64 n = r.range(8, tier ? 160 : 70);
        // now and then a large complex
        bool large = r.chance(0.01);
        if (large) {
            p.cfg["vertices"] = r.range(10, 40);
            n = r.range(300, 700);
        }
        Swarm sw(r, { { O_VERTEX, 2 }, { O_CREATE, 5 }, { O_CREATE_LOW, 3 }, { O_RECREATE, 2 }, { O_COMPOSE, 3 }, { O_FLIP, 3 }, { O_FLIP2, 1 }, { O_COPY, 1.5 }, { O_DROP, 2 }, { O_ERASE, 4 }, { O_EXTRACT, 2 }, { O_EXTRACT_FOOT, 0.7 }, { O_VERTICES, 1 }, { O_ASK_SEGMENT, 2 }, { O_ASK_COMP, 2 }, { O_ASK_FLIPPED, 1 }, { O_INVALID, 1 }, { O_ORIENT, 0.7 }, { O_GIVE, 0.5 }, { O_CHURN, mode ? 1.0 : 0.4 } }, { O_VERTEX, O_CREATE });
        Scheduler sc(r, (int) p.cfg["clients"]);
        double rate = r.pick({ 5, 15, 40 }) / 100.0;
        i64 span = r.pick({ 3, 8, 20, 45 });
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (i < (large ? 10 : 3)) o.kind = O_VERTEX;
            // (which mostly grows)
            if (large && (o.kind == O_DROP || o.kind == O_ERASE) && r.chance(0.8)) o.kind = r.pick({ O_CREATE, O_CREATE_LOW, O_COMPOSE });
            if (mode && o.kind != O_DROP && o.kind != O_COPY && r.chance(rate)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, o.kind == O_CHURN ? 4 : span);
            }
            p.ops.push_back(o);
        }
    }
    void gen_topo(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 0); }
    void gen_topo_faults(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, 1); }

    struct Item {
        handle_v h;
        Ref r;    // sign 0: a handle on a footprint (vertices included)
    };

    void run_topo(const Plan & p)
    {
        start_memory(p);
        const bool FAULTS = p.get("faults") != 0;
        const int C = (int) std::max<i64>(1, p.get("clients", 1)), MAXV = (int) p.get("vertices", 4);
        // which property a plain failure belongs to; after an injected fault it is T04 as well
        const bool LARGE = MAXV > 8;
        bool faulted = false;
        bool refused = false;    // an inconsistent composition has been refused in this run (T06)
        char lblbuf[96];
        auto L = [&](const char * props, const char * what) -> const char * {
            snprintf(lblbuf, sizeof lblbuf, "%s%s%s/%s", FAULTS && faulted ? "T04," : "", refused ? "T06," : "", props, what);
            return lblbuf;
        };
        Model M;
        std::vector<std::vector<Item>> V((size_t) C);
        top::topology_t * T = nullptr;
        {
            Sut in;
            T = &top::topology();
        }
        std::map<const void *, Ref> where[8];    // address -> model object, per kind of object

        auto n_of = [&](int n) {
            switch (n) {
            case 0: return T->n_simplices<0>();
            case 1: return T->n_simplices<1>();
            case 2: return T->n_simplices<2>();
            default: return T->n_simplices<3>();
            }
        };
        // index of a held item on vertex {f}
        auto vertex_handle = [&](int f) -> top::vertex_t {
            for (auto & c : V)
                for (auto & it : c) {
                    if (it.r.sign == 0 && it.r.foot == f && std::holds_alternative<top::vertex_t>(it.h)) return std::get<top::vertex_t>(it.h);
                    if (it.r.sign != 0 && it.r.foot == f && std::holds_alternative<top::simplex_t<0>>(it.h)) return std::get<top::simplex_t<0>>(it.h)->footprint();
                }
            return top::vertex_t();
        };
        // which model vertex a handle designates
        auto vertex_of = [&](const top::vertex_t & v, const char * what) -> int {
            auto it = where[0].find(v.operator->());
            if (it == where[0].end()) fail(L("T02,T01", "unknown-vertex"), "after %s: a simplex names a vertex that was never handed out", what);
            return it->second.foot;
        };
        auto known_vertices = [&] {
            // vertices somebody can name
            std::vector<int> out;
            for (size_t f = 0; f < M.feet.size(); ++f) {
                auto & x = M.feet[f];
                if (x.n == 0 && (x.held + x.held_o[0] + x.held_o[1]) > 0) out.push_back((int) f);
            }
            return out;
        };
        // check one oriented simplex against the model object
        auto inspect = [&](auto & h, const Ref & r, const char * what, bool counts) {
            using H = std::decay_t<decltype(h)>;
            constexpr int N = H::resource_type::order;
            auto & f = M.feet[(size_t) r.foot];
            if (h.is_nullptr()) fail(L("T01,T03", "null-handle"), "after %s: a handle on a live simplex is null", what);
            const void * a = h.operator->();
            if (!f.addr[ix(r.sign)]) {
                f.addr[ix(r.sign)] = a;
            }
            if (a != f.addr[ix(r.sign)]) fail(L("T01", "two-objects"), "after %s: one oriented %d-simplex is two objects", what, N);
            const void * fa = h->footprint().operator->();
            if (!f.faddr) f.faddr = fa;
            if (fa != f.faddr) fail(L("T01", "two-footprints"), "after %s: one %d-simplex has two footprints", what, N);
            int want = (r.sign > 0 ? 1 : -1);
            if (h->orientation() != want) fail(L("T01,T02", "orientation"), "after %s: a %d-simplex has orientation %d instead of %d", what, N, h->orientation(), want);
            if constexpr (N > 0) {
                auto vs = h->vertices();
                std::vector<int> got;
                for (auto & v : vs) got.push_back(vertex_of(v, what));
                if (sorted(got) != sorted(f.order)) fail(L("T02", "vertices"), "after %s: a %d-simplex has other vertices than it was made of", what, N);
                if (parity(got, f.order) != want) fail(L("T02", "vertex-order"), "after %s: the vertices of a %d-simplex are ordered against its orientation", what, N);
                std::set<top::vertex_t> vset;
                h->vertices(vset);
                if (vset.size() != got.size()) fail(L("T02", "vertex-set"), "after %s: a %d-simplex collects %zu vertices", what, N, vset.size());
                for (auto & v : vs)
                    if (!vset.count(v)) fail(L("T02", "vertex-set"), "after %s: a %d-simplex does not collect one of its vertices", what, N);
                if (!h->sanityCheck()) fail(L("T02", "sanity"), "after %s: the sanity check of a %d-simplex fails", what, N);
            }
            if (counts) {
                int refs = h.references(), wr = M.uses(r);
                if (refs != wr) fail(L("T03,T04", "references"), "after %s: a %d-simplex counts %d references, %d hold it", what, N, refs, wr);
                int fr = h->footprint().references(), wf = M.uses_foot(r.foot);
                if (fr != wf) fail(L("T03,T04", "footprint-references"), "after %s: the footprint of a %d-simplex counts %d references, %d hold it", what, N, fr, wf);
            }
        };
        // deeper: its facets and the boundary of its boundary
        auto dissect = [&](auto & h, const Ref & r, const char * what) {
            using H = std::decay_t<decltype(h)>;
            constexpr int N = H::resource_type::order;
            if constexpr (N > 0) {
                auto & f = M.feet[(size_t) r.foot];
                auto comp = h->composition();
                std::set<Ref> seen;
                std::map<const void *, int> net;
                static const int eps[4] = { 0, +1, +1, -1 };
                auto order = M.vertices(r);
                for (auto & s : comp) {
                    if (s.is_nullptr()) fail(L("T02,T04", "null-facet"), "after %s: a %d-simplex has a null facet", what, N);
                    std::vector<int> sv;
                    if constexpr (N == 1)
                        sv.push_back(vertex_of(s->footprint(), what));
                    else {
                        for (auto & v : s->vertices()) sv.push_back(vertex_of(v, what));
                        for (auto & q : s->composition()) net[q->footprint().operator->()] += q->orientation() * s->orientation();
                    }
                    // which facet is it?
                    Ref fr;
                    for (auto & c : f.comp)
                        if (sorted(M.feet[(size_t) c.foot].order) == sorted(sv)) fr = c;
                    if (fr.foot < 0) fail(L("T02", "foreign-facet"), "after %s: a %d-simplex has a facet that is not one of its own", what, N);
                    if (!seen.insert(fr).second) fail(L("T02", "facet-twice"), "after %s: a %d-simplex has a facet twice", what, N);
                    inspect(s, fr, what, false);
                    // the orientation the facet has against the one induced by the simplex
                    int opp = -1;
                    for (size_t i = 0; i < order.size(); ++i)
                        if (std::find(sv.begin(), sv.end(), order[i]) == sv.end()) opp = (int) i;
                    std::vector<int> induced = order;
                    induced.erase(induced.begin() + opp);
                    int sign = (opp % 2 ? -1 : 1);
                    int got = N == 1 ? s->orientation() * sign : parity(sv, induced) * sign;
                    if (got * eps[N] != h->orientation()) fail(L("T02", "facet-orientation"), "after %s: a facet of a %d-simplex is oriented against what the vertex order implies", what, N);
                }
                for (auto & [q, n] : net)
                    if (n != 0) fail(L("T02", "boundary-of-boundary"), "after %s: the boundary of the boundary of a %d-simplex is not zero", what, N);
                if constexpr (N > 1) {
                    // the edges are those of its faces, and connect each of its vertices to each other
                    std::set<top::simplex_t<1>> want, edges;
                    if constexpr (N == 2)
                        for (auto & s : comp) want.insert(s);
                    else
                        for (auto & s : comp)
                            for (auto & e : s->composition()) want.insert(e);
                    h->edges(edges);
                    if (edges != want) fail(L("T02", "edges"), "after %s: a %d-simplex collects %zu edges, its faces have %zu", what, N, edges.size(), want.size());
                    std::set<std::set<int>> ends;
                    for (auto & e : edges) {
                        std::set<int> two;
                        for (auto & v : e->vertices()) two.insert(vertex_of(v, what));
                        ends.insert(two);
                    }
                    if (ends.size() != (size_t) (N * (N + 1) / 2)) fail(L("T02", "edges"), "after %s: the edges of a %d-simplex connect %zu pairs of vertices", what, N, ends.size());
                }
                if (N > 1 && net.size() != (size_t) ((N + 1) * N / 2)) fail(L("T02", "boundary-of-boundary"), "after %s: a %d-simplex has %zu ridges", what, N, net.size());
            }
        };
        auto verify = [&](const char * what) {
            u64 sh = 5;
            for (int n = 0; n < 4; ++n) {
                int got = n_of(n);
                if (got != M.count[n]) fail(L("T03", "count"), "after %s: the topology counts %d %d-simplices, %d exist", what, got, n, M.count[n]);
                sh = hcomb(sh, (u64) got);
            }
            for (auto & c : V)
                for (auto & it : c) {
                    std::visit(
                        [&](auto & h) {
                            using H = std::decay_t<decltype(h)>;
                            if constexpr (requires { H::resource_type::order; }) {
                                inspect(h, it.r, what, true);
                                if constexpr (H::resource_type::order > 0) {
                                    bool other, want = M.feet[(size_t) it.r.foot].there[ix(-it.r.sign)];
                                    {
                                        Sut in;
                                        other = T->template exists_flipped<H::resource_type::order>(h);
                                    }
                                    if (other != want) fail(L("T01,T02", "exists-flipped"), "after %s: a flipped %d-simplex that %s is said to %s", what, H::resource_type::order, want ? "exists" : "does not exist", other ? "exist" : "not exist");
                                }
                            }
                            else {
                                auto & f = M.feet[(size_t) it.r.foot];
                                if (h.is_nullptr()) fail(L("T03", "null-handle"), "after %s: a handle on a footprint is null", what);
                                if (!f.faddr) f.faddr = h.operator->();
                                if (h.operator->() != f.faddr) fail(L("T01", "two-footprints"), "after %s: a footprint moved", what);
                                if (h.references() != M.uses_foot(it.r.foot)) fail(L("T03,T04", "footprint-references"), "after %s: a footprint counts %d references, %d hold it", what, h.references(), M.uses_foot(it.r.foot));
                            }
                        },
                        it.h);
                    sh = hcomb(sh, (u64) (M.feet[(size_t) it.r.foot].n * 3 + it.r.sign));
                }
            // distinct simplices are distinct objects
            std::set<const void *> feet, objs;
            for (auto & f : M.feet) {
                if (f.reg && f.faddr && !feet.insert(f.faddr).second) fail(L("T01", "shared-object"), "after %s: two footprints share an object", what);
                for (int s = 0; s < 2; ++s)
                    if (f.there[s] && f.addr[s] && !objs.insert(f.addr[s]).second) fail(L("T01", "shared-object"), "after %s: two simplices share an object", what);
            }
            state(sh);
        };
        auto forget_dead = [&] {
            for (auto & f : M.feet) {
                if (!f.reg) f.faddr = nullptr;
                for (int s = 0; s < 2; ++s)
                    if (!f.there[s]) f.addr[s] = nullptr;
            }
        };
        auto take = [&](int me, handle_v h, Ref r) {
            if (r.sign == 0) M.feet[(size_t) r.foot].held++;
            else M.feet[(size_t) r.foot].held_o[ix(r.sign)]++;
            V[(size_t) me].push_back(Item { std::move(h), r });
        };
        auto drop = [&](std::vector<Item> & c, size_t i) {
            Ref r = c[i].r;
            if (r.sign == 0) M.feet[(size_t) r.foot].held--;
            else M.feet[(size_t) r.foot].held_o[ix(r.sign)]--;
            Sut in;
            c.erase(c.begin() + (long) i);
        };
        // run a request; if the injected fault made it fail, check that nothing is broken and repeat it
        auto request = [&](const Op & op, const char * what, auto && f) {
            Outcome o = act(op, f);
            if (!o.ok) {
                if (!o.bad_alloc || !op.fk) fail(L("T01", "refused"), "%s threw: %s", what, o.bad_alloc ? "bad_alloc" : o.what.c_str());
                faulted = true;
                probe("request-failed");
                for (int n = 0; n < 4; ++n)
                    if (n_of(n) < M.count[n]) fail("T04/lost-simplex", "after a failed %s: %d %d-simplices are left of %d", what, n_of(n), n, M.count[n]);
                for (auto & c : V)
                    for (auto & it : c)
                        std::visit(
                            [&](auto & h) {
                                using H = std::decay_t<decltype(h)>;
                                if constexpr (requires { H::resource_type::order; }) inspect(h, it.r, what, false);
                            },
                            it.h);
                Op again = op;
                again.fk = 0;
                o = act(again, f);
                if (!o.ok) fail("T04/not-usable", "%s still fails after the fault is over: %s", what, o.what.c_str());
            }
        };
        auto create = [&](const Op & op, int me, const std::vector<int> & v, const char * what) {
            std::vector<top::vertex_t> hv;
            for (int x : v) hv.push_back(vertex_handle(x));
            std::optional<handle_v> got;
            switch (v.size()) {
            case 2: request(op, what, [&] { got = op.d % 3 ? T->segment({ hv[0], hv[1] }) : top::segment({ hv[0], hv[1] }); }); break;
            case 3: request(op, what, [&] { got = op.d % 3 ? T->triangle({ hv[0], hv[1], hv[2] }) : top::triangle({ hv[0], hv[1], hv[2] }); }); break;
            case 4:
                if (op.d % 2) request(op, what, [&] { got = op.d % 3 ? T->tetrahedron({ hv[0], hv[1], hv[2], hv[3] }) : top::tetrahedron({ hv[0], hv[1], hv[2], hv[3] }); });
                else request(op, what, [&] { got = T->simplex<3>({ hv[0], hv[1], hv[2], hv[3] }); });
                break;
            }
            Ref r = M.create(v);
            hv.clear();
            take(me, std::move(*got), r);
            return r;
        };
        auto choose = [&](u64 seed, std::vector<int> from, size_t n) {
            Rng r(seed);
            for (size_t i = 0; i < from.size(); ++i) std::swap(from[i], from[i + (size_t) r.below((i64) (from.size() - i))]);
            from.resize(n);
            return from;
        };
        auto pick_item = [&](const Op & op, auto && pred) -> std::pair<std::vector<Item> *, size_t> {
            // mine first, then anyone's
            for (int k = 0; k < C; ++k) {
                auto & c = V[(size_t) ((op.task + k) % C)];
                if (c.empty()) continue;
                size_t s = (size_t) (op.a % (i64) c.size());
                for (size_t i = 0; i < c.size(); ++i) {
                    size_t j = (s + i) % c.size();
                    if (pred(c[j])) return { &c, j };
                }
            }
            return { nullptr, 0 };
        };
        auto dim = [&](const Item & it) { return M.feet[(size_t) it.r.foot].n; };
        auto oriented = [&](const Item & it) { return it.r.sign != 0; };

        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            int me = (int) (op.task % C);
            const char * what = "nothing";
            auto vs = known_vertices();
            switch (op.kind) {
            case O_VERTEX: {
                what = "vertex";
                if ((int) vs.size() >= MAXV) break;
                std::optional<handle_v> got;
                request(op, what, [&] { got = op.d % 2 ? T->vertex() : top::vertex(); });
                auto & v = std::get<top::vertex_t>(*got);
                int f = M.vertex();
                const void * a = v.operator->();
                auto old = where[0].find(a);
                if (old != where[0].end() && M.feet[(size_t) old->second.foot].reg && (M.uses_foot(old->second.foot) > 0))
                    fail(L("T01,T03", "vertex-reused"), "a new vertex is the same object as one in use");
                where[0][a] = Ref { f, 0 };
                M.feet[(size_t) f].faddr = a;
                // a vertex that nobody can name any more has given up its place
                for (size_t i = 0; i + 1 < M.feet.size(); ++i)
                    if (M.feet[i].n == 0 && M.feet[i].faddr == a && (int) i != f) M.feet[i].faddr = nullptr;
                take(me, std::move(*got), Ref { f, 0 });
                break;
            }
            case O_CREATE:
            case O_CREATE_LOW: {
                what = "creation";
                size_t n = 2 + (size_t) (op.kind == O_CREATE ? (op.c % 3) : (op.c % 2));
                if (vs.size() < n) break;
                create(op, me, choose((u64) op.a, vs, n), what);
                break;
            }
            case O_RECREATE: {
                what = "renewed creation";
                // the same vertices in some other order
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it) && dim(it) > 0; });
                if (!c) break;
                Ref r = (*c)[i].r;
                auto v = M.vertices(r);
                bool nameable = true;
                for (int x : v) nameable = nameable && std::find(vs.begin(), vs.end(), x) != vs.end();
                if (!nameable) break;
                auto w = choose((u64) op.b, v, v.size());
                Ref q = create(op, me, w, what);
                if (q.foot != r.foot || (q == r) != (parity(w, v) > 0)) fail("exception/model", "model broken");
                probe(q == r ? "same-simplex-again" : "opposite-by-vertices");
                break;
            }
            case O_COMPOSE: {
                what = "composition";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it) && dim(it) > 0; });
                if (!c) break;
                Ref r = (*c)[i].r;
                int n = dim((*c)[i]);
                std::vector<int> perm((size_t) n + 1), id((size_t) n + 1);
                std::iota(id.begin(), id.end(), 0);
                perm = choose((u64) op.b, id, id.size());
                int sg = parity(perm, id);
                std::optional<handle_v> got;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) {
                            constexpr int N = H::resource_type::order;
                            if constexpr (N > 0) {
                                auto comp = h->composition();
                                auto q = comp;
                                for (size_t k = 0; k < comp.size(); ++k) q[k] = comp[(size_t) perm[k]];
                                request(op, what, [&] {
                                    if (op.d % 3) got = T->simplex<N>(q);
                                    else if constexpr (N == 1) got = top::segment(q);
                                    else if constexpr (N == 2) got = top::triangle(q);
                                    else if constexpr (N == 3) got = top::tetrahedron(q);
                                    else got = T->simplex<N>(q);
                                });
                            }
                        }
                    },
                    (*c)[i].h);
                Ref q = M.orient(r.foot, r.sign * sg);
                probe(sg > 0 ? "even-reordering" : "odd-reordering");
                take(me, std::move(*got), q);
                break;
            }
            case O_FLIP:
            case O_FLIP2: {
                what = op.kind == O_FLIP ? "flip" : "double flip";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it); });
                if (!c) break;
                Ref r = (*c)[i].r;
                handle_v src = (*c)[i].h;
                std::optional<handle_v> got;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) {
                            constexpr int N = H::resource_type::order;
                            if (op.kind == O_FLIP) request(op, what, [&] { got = T->flip<N>(h); });
                            else request(op, what, [&] { got = T->flip<N>(top::flip<N>(h)); });
                        }
                    },
                    src);
                Ref q = M.orient(r.foot, -r.sign);
                if (op.kind == O_FLIP2) {
                    q = r;
                    bool same = std::visit(
                        [&](auto & a) {
                            using H = std::decay_t<decltype(a)>;
                            return std::get<H>(*got) == a;
                        },
                        src);
                    if (!same) fail(L("T02", "double-flip"), "flipping a simplex twice gives another object");
                }
                src = top::vertex_t();
                take(me, std::move(*got), q);
                break;
            }
            case O_COPY: {
                what = "copy";
                auto [c, i] = pick_item(op, [&](auto &) { return true; });
                if (!c) break;
                take(me, handle_v((*c)[i].h), Ref((*c)[i].r));
                break;
            }
            case O_DROP: {
                what = "drop";
                auto & mine = V[(size_t) me];
                if (mine.empty()) break;
                drop(mine, (size_t) (op.a % (i64) mine.size()));
                break;
            }
            case O_ERASE: {
                what = "erase";
                auto & mine = V[(size_t) me];
                std::vector<size_t> cand;
                for (size_t i = 0; i < mine.size(); ++i)
                    if (oriented(mine[i])) cand.push_back(i);
                if (op.b % 16 == 0) {
                    what = "erase of a null handle";
                    request(op, what, [&] {
                        top::simplex_t<2> none;
                        T->erase(none);
                    });
                    break;
                }
                if (cand.empty()) break;
                size_t i = cand[(size_t) (op.a % (i64) cand.size())];
                Ref r = mine[i].r;
                if (op.b % 3 == 0)    // give up the other handles on it first
                    for (auto & c : V)
                        for (size_t j = c.size(); j-- > 0;)
                            if (c[j].r == r && !(&c == &mine && j == i)) {
                                drop(c, j);
                                if (&c == &mine && j < i) --i;
                            }
                bool sole = M.uses(r) == 1, null = false;
                Outcome o = act(op, [&] {
                    std::visit(
                        [&](auto & h) {
                            using H = std::decay_t<decltype(h)>;
                            if constexpr (requires { H::resource_type::order; }) {
                                T->erase(h);
                                null = h.is_nullptr();
                            }
                        },
                        mine[i].h);
                });
                if (!o.ok) {
                    if (!o.bad_alloc || !op.fk) fail(L("T03", "refused"), "erase threw: %s", o.what.c_str());
                    faulted = true;
                    probe("erase-failed");
                    // how far it got is open; but whatever is left is whole. Erase again, now without
                    // the fault (unless the simplex itself is already gone), and recreate: one
                    // canonical simplex comes back
                    bool gone = std::visit([](auto & h) { return h.is_nullptr(); }, mine[i].h);
                    if (gone && !sole) fail("T04/half-erased", "a failed erasure nulled a handle on a simplex in use");
                    auto v = M.vertices(r);
                    bool nameable = M.feet[(size_t) r.foot].n > 0;
                    for (int x : v) nameable = nameable && std::find(vs.begin(), vs.end(), x) != vs.end();
                    for (auto & c : V)
                        for (auto & it : c)
                            if (&it != &mine[i])
                                std::visit(
                                    [&](auto & h) {
                                        using H = std::decay_t<decltype(h)>;
                                        if constexpr (requires { H::resource_type::order; }) {
                                            inspect(h, it.r, what, false);
                                            dissect(h, it.r, what);
                                        }
                                    },
                                    it.h);
                    for (int n = 0; n < 4; ++n)
                        if (n_of(n) > M.count[n]) fail("T04/count", "after a failed erasure there are more %d-simplices than before", n);
                    if (!gone) {
                        // still there, and still the canonical one
                        std::visit(
                            [&](auto & h) {
                                using H = std::decay_t<decltype(h)>;
                                if constexpr (requires { H::resource_type::order; }) {
                                    inspect(h, r, what, false);
                                    constexpr int N = H::resource_type::order;
                                    Sut in;
                                    auto back = T->simplex<N>(h->footprint(), h->orientation());
                                    if (back != h) fail("T04/half-erased", "after a failed erasure a simplex still held is no longer the canonical one");
                                }
                            },
                            mine[i].h);
                    }
                    if (nameable) {
                        std::vector<top::vertex_t> hv;
                        for (int x : v) hv.push_back(vertex_handle(x));
                        Sut in;
                        std::vector<int> got;
                        auto once = [&](auto make) {
                            auto a = make();
                            auto b = make();
                            if (a != b) fail("T04/not-canonical", "after a failed erasure the same request gives two objects");
                            for (auto & x : a->vertices()) got.push_back(vertex_of(x, what));
                        };
                        if (v.size() == 2) once([&] { return T->segment({ hv[0], hv[1] }); });
                        if (v.size() == 3) once([&] { return T->triangle({ hv[0], hv[1], hv[2] }); });
                        if (v.size() == 4) once([&] { return T->tetrahedron({ hv[0], hv[1], hv[2], hv[3] }); });
                        Host back;
                        if (sorted(got) != sorted(v) || parity(got, v) != 1) fail("T04/not-canonical", "after a failed erasure the simplex comes back with other vertices");
                    }
                    log("%lld erase failed after %lld", (long long) step, (long long) op.fn);
                    return;    // what is left is not determined any further
                }
                if (!sole) {
                    probe("erase-in-use");
                    if (null) fail(L("T03", "erased-in-use"), "erasing a simplex that is in use nulled its handle");
                    break;
                }
                if (!null) fail(L("T03", "not-erased"), "the handle of an erased simplex is not null");
                M.feet[(size_t) r.foot].held_o[ix(r.sign)]--;
                int before = M.count[0] + M.count[1] + M.count[2] + M.count[3];
                M.remove(r);
                int after = M.count[0] + M.count[1] + M.count[2] + M.count[3];
                if (before - after > 1) probe("erase-cascade");
                forget_dead();
                Sut in;
                mine.erase(mine.begin() + (long) i);
                break;
            }
            case O_EXTRACT: {
                what = "taking sub-simplices";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it) && dim(it) > 0; });
                if (!c) break;
                Ref r = (*c)[i].r;
                handle_v src = (*c)[i].h;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) {
                            constexpr int N = H::resource_type::order;
                            if constexpr (N > 0) {
                                dissect(h, r, what);
                                auto comp = h->composition();
                                for (size_t k = 0; k < comp.size(); ++k) {
                                    if (!((op.b >> k) & 1)) continue;
                                    std::vector<int> sv;
                                    if constexpr (N == 1) sv.push_back(vertex_of(comp[k]->footprint(), what));
                                    else
                                        for (auto & x : comp[k]->vertices()) sv.push_back(vertex_of(x, what));
                                    for (auto & s : M.feet[(size_t) r.foot].comp)
                                        if (sorted(M.feet[(size_t) s.foot].order) == sorted(sv)) {
                                            take(me, handle_v(comp[k]), s);
                                            break;
                                        }
                                }
                            }
                        }
                    },
                    src);
                break;
            }
            case O_EXTRACT_FOOT: {
                what = "taking a footprint";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it); });
                if (!c) break;
                Ref r = (*c)[i].r;
                handle_v src = (*c)[i].h;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) take(me, handle_v(h->footprint()), Ref { r.foot, 0 });
                    },
                    src);
                break;
            }
            case O_VERTICES: {
                what = "taking vertices";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it) && dim(it) > 0; });
                if (!c) break;
                Ref r = (*c)[i].r;
                handle_v src = (*c)[i].h;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) {
                            constexpr int N = H::resource_type::order;
                            if constexpr (N > 0) {
                                std::optional<top::vertex_simplex_composition_t<N>> got;
                                request(op, what, [&] { got = h->vertices(); });
                                auto & x = (*got)[(size_t) (op.b % (N + 1))];
                                take(me, handle_v(x), Ref { vertex_of(x, what), 0 });
                                dissect(h, r, what);
                            }
                        }
                    },
                    src);
                break;
            }
            case O_ASK_SEGMENT: {
                what = "existence of a segment";
                if (vs.size() < 2) break;
                auto v = choose((u64) op.a, vs, 2);
                auto a = vertex_handle(v[0]), b = vertex_handle(v[1]);
                bool got = false;
                request(op, what, [&] { got = T->exists({ a, b }); });
                if (got != M.exists(v)) fail(L("T01", "exists-segment"), "a segment that %s is said to %s", M.exists(v) ? "exists" : "does not exist", got ? "exist" : "not exist");
                probe(got ? "segment-exists" : "segment-absent");
                break;
            }
            case O_ASK_COMP: {
                what = "existence of a composition";
                // some simplex that exists or once existed, from handles on its facets
                std::vector<int> cand;
                auto find = [&](const Ref & r) -> const handle_v * {
                    for (auto & c : V)
                        for (auto & it : c)
                            if (it.r == r) return &it.h;
                    return nullptr;
                };
                for (size_t f = 0; f < M.feet.size(); ++f) {
                    auto & x = M.feet[f];
                    if (x.n == 0) continue;
                    bool all = true;
                    for (auto & s : x.comp) all = all && find(s);
                    if (all) cand.push_back((int) f);
                }
                if (cand.empty()) break;
                auto & x = M.feet[(size_t) cand[(size_t) (op.a % (i64) cand.size())]];
                std::vector<int> id(x.comp.size());
                std::iota(id.begin(), id.end(), 0);
                auto perm = choose((u64) op.b, id, id.size());
                auto v = x.order;
                if (parity(perm, id) < 0) std::swap(v[0], v[1]);
                bool want = M.exists(v), got = false;
                auto ask = [&]<int N>() {
                    std::array<top::simplex_t<N - 1>, N + 1> q;
                    for (size_t k = 0; k < q.size(); ++k) q[k] = std::get<top::simplex_t<N - 1>>(*find(x.comp[(size_t) perm[k]]));
                    request(op, what, [&] { got = T->exists<N>(q); });
                };
                if (x.n == 1) ask.template operator()<1>();
                if (x.n == 2) ask.template operator()<2>();
                if (x.n == 3) ask.template operator()<3>();
                if (got != want) fail(L("T01", "exists-composition"), "a %d-simplex that %s is said to %s", x.n, want ? "exists" : "does not exist", got ? "exist" : "not exist");
                probe(got ? "composition-exists" : "composition-absent");
                break;
            }
            case O_ASK_FLIPPED: {
                what = "existence of the flipped simplex";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it); });
                if (!c) break;
                Ref r = (*c)[i].r;
                bool got = false, want = M.feet[(size_t) r.foot].there[ix(-r.sign)];
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) request(op, what, [&] { got = T->exists_flipped<H::resource_type::order>(h); });
                    },
                    (*c)[i].h);
                if (got != want) fail(L("T01,T02", "exists-flipped"), "a flipped simplex that %s is said to %s", want ? "exists" : "does not exist", got ? "exist" : "not exist");
                break;
            }
            case O_INVALID: {
                what = "an inconsistent composition";
                auto [c, i] = pick_item(op, [&](auto & it) { return oriented(it) && dim(it) > 0; });
                if (!c) break;
                Ref r = (*c)[i].r;
                handle_v src = (*c)[i].h;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) {
                            constexpr int N = H::resource_type::order;
                            if constexpr (N > 0) {
                                auto q = h->composition();
                                size_t k = (size_t) (op.b % (N + 1));
                                std::vector<int> sv;
                                if constexpr (N == 1) sv.push_back(vertex_of(q[k]->footprint(), what));
                                else
                                    for (auto & x : q[k]->vertices()) sv.push_back(vertex_of(x, what));
                                Ref s;
                                for (auto & z : M.feet[(size_t) r.foot].comp)
                                    if (sorted(M.feet[(size_t) z.foot].order) == sorted(sv)) s = z;
                                // a facet turned round, or (for segments) the same vertex twice, or
                                // a facet twice in place of another one
                                bool twice = N > 1 && op.c % 3 == 0;
                                if (twice) {
                                    Sut in;
                                    size_t other = (k + 1 + (size_t) (op.d % N)) % (N + 1);
                                    q[other] = (op.d / 4) % 2 ? T->flip<N - 1>(q[k]) : q[k];
                                } else {
                                    Sut in;
                                    if (N == 1 && op.c % 2) {
                                        q[1 - k] = T->flip<N - 1>(q[k]);
                                    } else
                                        q[k] = T->flip<N - 1>(q[k]);
                                }
                                if (!twice || (op.d / 4) % 2) M.orient(s.foot, -s.sign);
                                // any order of them is as inconsistent as any other
                                if ((op.d / 8) % 2) std::rotate(q.begin(), q.begin() + 1 + (long) (op.d / 16 % N), q.end());
                                refused = true;
                                Op plain = op;
                                plain.fk = 0;
                                Outcome o = act(plain, [&] { T->simplex<N>(q); });
                                if (twice) probe("repeated-facet-refused");
                                if (o.ok) fail(L("T06", "accepted"), "a composition of a %d-simplex with inconsistent facets was accepted", N);
                                probe("composition-refused");
                            }
                        }
                    },
                    src);
                break;
            }
            case O_ORIENT: {
                what = "orienting a footprint";
                auto [c, i] = pick_item(op, [&](auto & it) { return !oriented(it); });
                if (!c) break;
                Ref r = (*c)[i].r;
                int sg = op.b % 2 ? 1 : -1;
                std::optional<handle_v> got;
                handle_v src = (*c)[i].h;
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (!requires { H::resource_type::order; }) {
                            if constexpr (std::is_same_v<H, foot_t<0>>) request(op, what, [&] { got = T->simplex<0>(h, sg); });
                            if constexpr (std::is_same_v<H, foot_t<1>>) request(op, what, [&] { got = T->simplex<1>(h, sg); });
                            if constexpr (std::is_same_v<H, foot_t<2>>) request(op, what, [&] { got = T->simplex<2>(h, sg); });
                            if constexpr (std::is_same_v<H, foot_t<3>>) request(op, what, [&] { got = T->simplex<3>(h, sg); });
                        }
                    },
                    src);
                take(me, std::move(*got), M.orient(r.foot, sg));
                break;
            }
            case O_GIVE: {
                what = "handing over";
                auto & mine = V[(size_t) me];
                auto & other = V[(size_t) (op.b % C)];
                if (mine.empty() || &mine == &other) break;
                size_t i = (size_t) (op.a % (i64) mine.size());
                Sut in;
                other.push_back(std::move(mine[i]));
                mine.erase(mine.begin() + (long) i);
                break;
            }
            case O_CHURN: {
                what = "creating and erasing many";
                // a fan of segments between fresh vertices, erased again: everything must be as before
                int n = 1 + (int) (op.a % (op.fk ? 150 : 60));
                std::vector<top::vertex_t> fan;
                std::vector<top::simplex_t<1>> segs;
                Op plain = op;
                plain.fk = 0;
                Outcome o = act(plain, [&] {
                    for (int i = 0; i <= n; ++i) fan.push_back(T->vertex());
                    for (int i = 0; i < n; ++i) segs.push_back(T->segment({ fan[(size_t) i], fan[(size_t) i + 1] }));
                });
                if (!o.ok) fail(L("T01", "refused"), "creating many segments failed");
                if (n_of(1) != M.count[1] + n) fail(L("T03", "count"), "%d segments were created, the count grew by %d", n, n_of(1) - M.count[1]);
                bool order = op.b % 2;
                auto erase_all = [&] {
                    for (int i = 0; i < n; ++i) T->erase(segs[(size_t) (order ? i : n - 1 - i)]);
                };
                if (op.fk) {
                    // erase them with the fault armed; the vertices stay in hand to ask questions with
                    o = act(op, erase_all);
                    if (!o.ok) {
                        if (!o.bad_alloc) fail(L("T03", "refused"), "erasing many segments threw: %s", o.what.c_str());
                        faulted = true;
                        probe("erase-failed");
                        int left = 0;
                        for (int i = 0; i < n; ++i) {
                            auto & s = segs[(size_t) i];
                            bool there = false;
                            {
                                Sut in;
                                there = T->exists({ fan[(size_t) i], fan[(size_t) i + 1] });
                            }
                            left += !s.is_nullptr();
                            if (there == s.is_nullptr()) fail("T04/half-erased", "after a failed erasure a segment whose handle is %s is said to %s", s.is_nullptr() ? "null" : "not null", there ? "exist" : "not exist");
                            if (s.is_nullptr()) continue;
                            top::simplex_t<1> again;
                            {
                                Sut in;
                                again = T->segment({ fan[(size_t) i], fan[(size_t) i + 1] });
                            }
                            if (again != s) fail("T04/half-erased", "after a failed erasure a segment still held is no longer the canonical one");
                        }
                        if (n_of(1) != M.count[1] + left) fail("T04/count", "after a failed erasure %d segments are counted, %d are left", n_of(1) - M.count[1], left);
                        o = act(plain, erase_all);
                        if (!o.ok) fail("T04/not-usable", "erasing still fails after the fault is over");
                        if (n_of(1) != M.count[1]) fail("T04/count", "%d segments too many are counted after a failed erasure was repeated", n_of(1) - M.count[1]);
                        log("%lld many erasures failed, %d were left", (long long) step, left);
                        return;    // oriented vertices may have outlived their segment
                    }
                    Sut in;
                    for (auto & v : fan) v = top::vertex_t();
                } else {
                    o = act(plain, [&] {
                        for (auto & v : fan) v = top::vertex_t();
                        erase_all();
                    });
                    if (!o.ok) fail(L("T03", "refused"), "erasing many segments failed");
                }
                for (auto & s : segs)
                    if (!s.is_nullptr()) fail(L("T03", "not-erased"), "a segment among many was not erased");
                Sut in;
                fan = {};
                segs = {};
                break;
            }
            }
            log("%lld t%d k%lld %s | %d %d %d %d", (long long) step, me, (long long) op.kind, what, M.count[0], M.count[1], M.count[2], M.count[3]);
            if (!LARGE || step % 16 == 0) verify(what);
        }
        verify("everything");
        if (LARGE) probe("large complexes");
        // a last look at everything that is held
        for (auto & c : V)
            for (auto & it : c)
                std::visit(
                    [&](auto & h) {
                        using H = std::decay_t<decltype(h)>;
                        if constexpr (requires { H::resource_type::order; }) dissect(h, it.r, "the end");
                    },
                    it.h);
    }
    Registrar reg_topo("topo", gen_topo, run_topo);
    Registrar reg_topo_faults("topo_faults", gen_topo_faults, run_topo);

    // ================================================================== flipping diagonals (T05)
    enum { FD_NOISE, FD_FLIP, FD_CHAIN, FD_REFUSE, FD_ERASE, FD_PAIR };
    void gen_flip(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        p.cfg["vertices"] = r.range(4, 8);
        p.cfg["faults"] = r.chance(0.3);
        i64 n = r.range(4, tier ? 60 : 25);
        Swarm sw(r, { { FD_NOISE, 3 }, { FD_FLIP, 4 }, { FD_CHAIN, 2 }, { FD_REFUSE, 1 }, { FD_ERASE, 2 }, { FD_PAIR, 2 } }, { FD_FLIP, FD_PAIR });
        for (i64 i = 0; i < n; ++i) {
            Op o { 0, sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if (p.cfg["faults"] && (o.kind == FD_FLIP || o.kind == FD_CHAIN) && r.chance(0.4)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                o.fn = r.range(1, 30);
            }
            p.ops.push_back(o);
        }
    }
    void run_flip(const Plan & p)
    {
        start_memory(p);
        top::topology_t * T = nullptr;
        std::vector<top::vertex_t> V;
        const int N = (int) std::max<i64>(4, p.get("vertices", 4));
        {
            Sut in;
            T = &top::topology();
            for (int i = 0; i < N; ++i) V.push_back(T->vertex());
        }
        using tri_t = top::simplex_t<2>;
        using pair_t = std::pair<tri_t, tri_t>;
        auto id = [&](const top::vertex_t & v) {
            for (int i = 0; i < N; ++i)
                if (V[(size_t) i] == v) return i;
            fail("T05/unknown-vertex", "a triangle names a vertex that is not there");
        };
        auto verts = [&](const tri_t & t) {
            std::vector<int> o;
            for (auto & v : t->vertices()) o.push_back(id(v));
            return o;
        };
        // a cyclic order is the same whatever it starts with
        auto cyc = [](std::vector<int> v) {
            std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end());
            return v;
        };
        // the directed edges of a triangle, by its composition
        auto edges = [&](const tri_t & t, const char * what) {
            std::multiset<std::pair<int, int>> e;
            auto v = verts(t);
            std::set<std::pair<int, int>> want;
            for (int k = 0; k < 3; ++k) want.insert({ v[(size_t) k], v[(size_t) ((k + 1) % 3)] });
            for (auto & s : t->composition()) {
                auto w = s->vertices();
                int a = id(w[0]), b = id(w[1]);
                if (t->orientation() < 0) std::swap(a, b);
                e.insert({ a, b });
                if (!want.count({ a, b })) fail("T05/edges", "%s: the edges of a triangle do not run along its vertices", what);
            }
            return e;
        };
        struct Pair {
            std::vector<int> q;    // a b c d: triangles (a b c) and (a c d), diagonal a-c
            pair_t t;
        };
        std::vector<Pair> P;
        std::vector<tri_t> noise;
        auto choose = [&](u64 seed, size_t n) {
            Rng r(seed);
            std::vector<int> v((size_t) N);
            std::iota(v.begin(), v.end(), 0);
            for (size_t i = 0; i < v.size(); ++i) std::swap(v[i], v[i + (size_t) r.below((i64) (v.size() - i))]);
            v.resize(n);
            return v;
        };
        auto tri = [&](int a, int b, int c, i64 rot) {
            int x[3] = { a, b, c };
            Sut in;
            return T->triangle({ V[(size_t) x[rot % 3]], V[(size_t) x[(rot + 1) % 3]], V[(size_t) x[(rot + 2) % 3]] });
        };
        // {w}: what flipping pair {q} = (a b c d) must give
        auto judge = [&](const pair_t & t, const std::vector<int> & q, const char * what) {
            int a = q[0], b = q[1], c = q[2], d = q[3];
            if (t.first.is_nullptr() || t.second.is_nullptr()) fail("T05/null", "%s gave a null triangle", what);
            std::set<std::vector<int>> got { cyc(verts(t.first)), cyc(verts(t.second)) }, want { cyc({ a, b, d }), cyc({ b, c, d }) };
            for (auto & x : got) log("  got %d %d %d", x[0], x[1], x[2]);
            for (auto & x : want) log("  want %d %d %d", x[0], x[1], x[2]);
            if (got != want) fail("T05/triangles", "%s did not give the triangles on the other diagonal, with the orientation of the pair", what);
            std::multiset<std::pair<int, int>> e = edges(t.first, what);
            for (auto & x : edges(t.second, what)) e.insert(x);
            std::multiset<std::pair<int, int>> we { { a, b }, { b, c }, { c, d }, { d, a }, { b, d }, { d, b } };
            if (e != we) fail("T05/outer-edges", "%s changed the outer edges", what);
        };
        auto flip = [&](const Op & op, const pair_t & in, const std::vector<int> & q, const char * what) {
            pair_t out;
            auto before0 = verts(in.first), before1 = verts(in.second);
            Outcome o = act(op, [&] { out = top::flip_diagonal(in); });
            if (!o.ok) {
                if (!o.bad_alloc || !op.fk) fail("T05/refused", "%s threw: %s", what, o.what.c_str());
                probe("flip-failed");
                if (verts(in.first) != before0 || verts(in.second) != before1) fail("T05,T04/changed", "a failed flip of a diagonal changed the triangles it was given");
                Op again = op;
                again.fk = 0;
                o = act(again, [&] { out = top::flip_diagonal(in); });
                if (!o.ok) fail("T05,T04/refused", "%s still fails after the fault is over", what);
            }
            judge(out, q, what);
            if (verts(in.first) != before0 || verts(in.second) != before1) fail("T05/changed", "flipping a diagonal changed the triangles it was given");
            return out;
        };
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            const char * what = "";
            switch (op.kind) {
            case FD_NOISE: {
                what = "unrelated triangle";
                auto v = choose((u64) op.a, 3);
                auto t = tri(v[0], v[1], v[2], op.b);
                if (op.c % 2) {
                    Sut in;
                    t = top::flip<2>(t);
                }
                if (op.d % 2) noise.push_back(t);
                break;
            }
            case FD_PAIR: {
                what = "pair";
                Pair x;
                x.q = choose((u64) op.a, 4);
                auto t0 = tri(x.q[0], x.q[1], x.q[2], op.b), t1 = tri(x.q[0], x.q[2], x.q[3], op.b / 3);
                if (t0->orientation() < 0 || t1->orientation() < 0) probe("opposite-footprint");
                x.t = op.c % 2 ? pair_t { t0, t1 } : pair_t { t1, t0 };
                P.push_back(x);
                break;
            }
            case FD_FLIP: {
                what = "flip";
                if (P.empty()) break;
                auto & x = P[(size_t) (op.a % (i64) P.size())];
                auto y = flip(op, x.t, x.q, what);
                // and back: the original pair
                Op plain = op;
                plain.fk = 0;
                auto z = flip(plain, op.b % 2 ? pair_t { y.second, y.first } : y, { x.q[1], x.q[2], x.q[3], x.q[0] }, "flip back");
                if (!((z.first == x.t.first && z.second == x.t.second) || (z.first == x.t.second && z.second == x.t.first)))
                    fail("T05/flip-back", "flipping a diagonal twice does not give the original pair of triangles");
                break;
            }
            case FD_CHAIN: {
                what = "kept flip";
                if (P.empty()) break;
                auto & x = P[(size_t) (op.a % (i64) P.size())];
                x.t = flip(op, x.t, x.q, what);
                std::rotate(x.q.begin(), x.q.begin() + 1, x.q.end());
                break;
            }
            case FD_REFUSE: {
                what = "triangles with no common edge";
                if (N < 5) break;
                auto v = choose((u64) op.a, N >= 6 && op.d % 2 ? 6 : 5);
                auto t0 = tri(v[0], v[1], v[2], op.b), t1 = v.size() == 6 ? tri(v[3], v[4], v[5], op.b) : tri(v[2], v[3], v[4], op.b);
                Op plain = op;
                plain.fk = 0;
                int before = T->n_simplices<2>();
                Outcome o = act(plain, [&] { top::flip_diagonal({ t0, t1 }); });
                if (o.ok) fail("T05/accepted", "flipping the diagonal of two triangles with no common edge was accepted");
                if (T->n_simplices<2>() != before) fail("T05/accepted", "a refused flip of a diagonal created triangles");
                probe("flip-refused");
                break;
            }
            case FD_ERASE: {
                what = "erase";
                Sut in;
                if (op.b % 2 && !P.empty()) {
                    auto i = (long) (op.a % (i64) P.size());
                    auto t = P[(size_t) i].t;
                    P.erase(P.begin() + i);
                    T->erase(t.first);
                    T->erase(t.second);
                } else if (!noise.empty()) {
                    auto i = (long) (op.a % (i64) noise.size());
                    auto t = noise[(size_t) i];
                    noise.erase(noise.begin() + i);
                    T->erase(t);
                }
                break;
            }
            }
            u64 h = 17;
            for (auto & x : P) {
                auto v0 = cyc(verts(x.t.first)), v1 = cyc(verts(x.t.second));
                std::set<std::vector<int>> got { v0, v1 }, want { cyc({ x.q[0], x.q[1], x.q[2] }), cyc({ x.q[0], x.q[2], x.q[3] }) };
                if (got != want) fail("T05/changed", "after %s: a pair of triangles changed", what);
                for (int k : x.q) h = hcomb(h, (u64) k);
                h = hcomb(h, (u64) (x.t.first->orientation() + 2 * x.t.second->orientation()));
            }
            state(h);
            log("%lld k%lld %s | %d %d %d", (long long) step, (long long) op.kind, what, T->n_simplices<0>(), T->n_simplices<1>(), T->n_simplices<2>());
        }
    }
    Registrar reg_flip("flipdiag", gen_flip, run_flip);
}
