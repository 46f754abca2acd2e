// Shared handles, repositories and segmented vectors: several clients act on shared containers.
#include "../sim/sim.h"
#include "../sim/track.h"

#include <mito/utilities.h>
#include <array>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace sim;

namespace {
    // ------------------------------------------------------------------ element types
    // something that owns memory, so that a doubled or missing destruction shows
    struct Heap {
        i64 * p;
        explicit Heap(i64 v) : p(new i64(v)) {}
        Heap(Heap && o) noexcept : p(o.p) { o.p = nullptr; }
        Heap(const Heap &) = delete;
        ~Heap() { delete p; }
    };
    template <int PAD>
    struct Res : public mito::utilities::Shareable {
        i64 value;
        char pad[PAD];
        Heap heap;
        explicit Res(i64 v) : value(v), heap(v)
        {
            memset(pad, (int) (v & 0x7f), PAD);
            track::may_throw();
            track::born(this);
        }
        ~Res() override { track::died(this); }
        bool intact(i64 v) const
        {
            if (value != v || !heap.p || *heap.p != v) return false;
            for (int i = 0; i < PAD; ++i)
                if (pad[i] != (char) (v & 0x7f)) return false;
            return true;
        }
    };
    template <int PAD>
    struct Elem : public mito::utilities::Invalidatable {
        i64 value;
        char pad[PAD];
        Heap heap;
        explicit Elem(i64 v) : value(v), heap(v)
        {
            memset(pad, (int) (v & 0x7f), PAD);
            track::may_throw();
            track::born(this);
        }
        Elem(Elem && o) noexcept : Invalidatable(o), value(o.value), heap(std::move(o.heap))
        {
            memcpy(pad, o.pad, PAD);
            track::born(this);
        }
        ~Elem() override { track::died(this); }
        bool intact(i64 v) const
        {
            if (value != v || !heap.p || *heap.p != v) return false;
            for (int i = 0; i < PAD; ++i)
                if (pad[i] != (char) (v & 0x7f)) return false;
            return true;
        }
    };

    // an element that can be neither copied nor moved
    struct Pinned : public Elem<1> {
        explicit Pinned(i64 v) : Elem<1>(v) {}
        Pinned(Pinned &&) = delete;
    };

    static const i64 SEGS[] = { 1, 2, 3, 4, 7, 10, 100 };

    // ================================================================== handles (U01)
    struct Plain : public mito::utilities::Shareable {
        i64 value;
        explicit Plain(i64 v) : value(v) {}
    };
    using handle_t = mito::utilities::shared_ptr<Plain>;

    enum { H_DEFAULT, H_WRAP, H_COPY, H_MOVE, H_ASSIGN, H_MASSIGN, H_SELF, H_SELFMOVE, H_DROP, H_SWAP, H_VECTOR, H_BYVALUE, H_ARRAY, H_COMPARE, H_NKINDS };

    void gen_handles(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 4);
        p.cfg["resources"] = r.range(1, 5);
        i64 n = r.range(10, tier ? 250 : 90);
        Swarm sw(r, { { H_DEFAULT, 1 }, { H_WRAP, 3 }, { H_COPY, 3 }, { H_MOVE, 3 }, { H_ASSIGN, 4 }, { H_MASSIGN, 4 }, { H_SELF, 1 }, { H_SELFMOVE, 1 }, { H_DROP, 2 }, { H_SWAP, 2 }, { H_VECTOR, 1 }, { H_BYVALUE, 1 }, { H_ARRAY, 1 }, { H_COMPARE, 1 } }, { H_WRAP });
        Scheduler sc(r, (int) p.cfg["clients"]);
        for (i64 i = 0; i < n; ++i)
            p.ops.push_back({ sc.next(r), sw.pick(r), r.below(64), r.below(64), r.below(64), r.below(64) });
    }

    void run_handles(const Plan & p)
    {
        start_memory(p);
        const int C = (int) p.get("clients", 1), N = (int) p.get("resources", 1), K = 4;
        std::vector<Plain *> res;
        for (int i = 0; i < N; ++i) {
            Sut in;
            res.push_back(nullptr);
            res.back() = new Plain(1000 + i);
        }
        // K handle variables per client: absent, or designating resource m (or -1: null)
        struct Var {
            std::optional<handle_t> h;
            int m = -1;
        };
        std::vector<Var> v((size_t) (C * K));
        auto count = [&](int m) {
            int n = 0;
            for (auto & x : v) n += x.h && x.m == m;
            return n;
        };
        auto verify = [&](const char * where) {
            u64 h = 3;
            for (int i = 0; i < N; ++i) {
                int n = count(i);
                bool valid = res[i]->is_valid();
                if (valid != (n > 0))
                    fail("U01/in-use", "after %s: resource %d is %s with %d handles", where, i, valid ? "in use" : "unused", n);
                h = hcomb(h, (u64) n);
            }
            for (size_t i = 0; i < v.size(); ++i) {
                auto & x = v[i];
                if (!x.h) continue;
                if (x.m < 0) {
                    if (!x.h->is_nullptr()) fail("U01/null", "after %s: handle %zu should be null", where, i);
                    if (x.h->operator->() != nullptr) fail("U01/null", "after %s: null handle %zu points somewhere", where, i);
                    continue;
                }
                if (x.h->is_nullptr() || x.h->operator->() != res[x.m])
                    fail("U01/target", "after %s: handle %zu does not designate resource %d", where, i, x.m);
                int got = x.h->references(), want = count(x.m);
                if (got != want) fail("U01/count", "after %s: resource %d counts %d references, %d handles designate it", where, x.m, got, want);
                if ((*x.h)->value != 1000 + x.m) fail("U01/content", "after %s: resource %d changed", where, x.m);
            }
            state(h);
        };
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            int me = (int) (op.task % C);
            Var & a = v[(size_t) (me * K + op.a % K)];                 // one of mine
            Var & b = v[(size_t) ((op.b / K % C) * K + op.b % K)];     // anyone's
            const char * what = "";
            auto go = [&](auto && f) {
                Outcome o = act(op, f);
                if (!o.ok) fail("U01/refused", "%s threw: %s", what, o.what.c_str());
            };
            switch (op.kind) {
            case H_DEFAULT: what = "default construction"; go([&] { a.h.reset(); a.h.emplace(); }); a.m = -1; break;
            case H_WRAP: {
                what = "construction from a resource";
                int m = (int) (op.b % N);
                go([&] { a.h.reset(); a.h.emplace(res[(size_t) m]); });
                a.m = m;
                break;
            }
            case H_COPY: {
                what = "copy construction";
                if (!b.h || &a == &b) break;
                if (b.m < 0) probe("copy-of-null");
                go([&] { a.h.reset(); a.h.emplace(*b.h); });
                a.m = b.m;
                break;
            }
            case H_MOVE: {
                what = "move construction";
                if (!b.h || &a == &b) break;
                go([&] { a.h.reset(); a.h.emplace(std::move(*b.h)); });
                a.m = b.m;
                b.m = -1;
                break;
            }
            case H_ASSIGN: {
                what = "copy assignment";
                if (!a.h || !b.h) break;
                if (b.m < 0) probe("assignment-from-null");
                if (&a != &b && a.m == b.m && a.m >= 0) probe("assignment-of-alias");
                go([&] { *a.h = *b.h; });
                a.m = b.m;
                break;
            }
            case H_MASSIGN: {
                what = "move assignment";
                if (!a.h || !b.h || &a == &b) break;
                if (a.m == b.m && a.m >= 0) probe("move-assignment-of-alias");
                go([&] { *a.h = std::move(*b.h); });
                a.m = b.m;
                b.m = -1;
                break;
            }
            case H_SELF: what = "self assignment"; if (a.h) go([&] { auto & s = *a.h; *a.h = s; }); break;
            case H_SELFMOVE:
                what = "self move assignment";
                if (a.h) {
                    probe("self-move");
                    go([&] { auto & s = *a.h; *a.h = std::move(s); });
                    // whether a handle moved onto itself keeps its target or becomes null is open;
                    // what it must not do is to drop or leak the reference
                    if (a.h->is_nullptr()) a.m = -1;
                }
                break;
            case H_DROP: what = "destruction"; go([&] { a.h.reset(); }); a.m = -1; break;
            case H_SWAP:
                what = "swap";
                if (!a.h || !b.h || &a == &b) break;
                go([&] { std::swap(*a.h, *b.h); });
                std::swap(a.m, b.m);
                break;
            case H_VECTOR: {
                what = "copies in a growing vector";
                if (!b.h) break;
                int n = 1 + (int) (op.c % 6), want = count(b.m), got = -1;
                go([&] {
                    std::vector<handle_t> w;
                    for (int i = 0; i < n; ++i) w.push_back(*b.h);
                    w.erase(w.begin() + (op.d % n));
                    if (b.m >= 0) got = b.h->references();
                });
                if (b.m >= 0 && got != want + n - 1) fail("U01/count", "%d handles in a vector counted as %d", n - 1, got - want);
                break;
            }
            case H_BYVALUE: {
                what = "passing by value";
                if (!b.h) break;
                int got = -1, want = count(b.m);
                auto f = [](handle_t h) { return h; };
                go([&] {
                    handle_t r = f(*b.h);
                    if (b.m >= 0) got = r.references();
                });
                if (b.m >= 0 && got != want + 1) fail("U01/count", "a handle returned by value counted as %d", got - want);
                break;
            }
            case H_ARRAY: {
                what = "arrays of handles";
                if (!a.h || !b.h) break;
                go([&] {
                    std::array<handle_t, 3> x { *a.h, *b.h, *a.h }, y;
                    y = x;
                    x = std::move(y);
                    std::swap(x[0], x[1]);
                });
                break;
            }
            case H_COMPARE: {
                what = "comparison";
                if (!a.h || !b.h) break;
                bool eq = false, lt = false, gt = false;
                go([&] { eq = *a.h == *b.h; lt = *a.h < *b.h; gt = *a.h > *b.h; });
                if (eq != (a.m == b.m) || (lt || gt) == eq || (lt && gt)) fail("U01/identity", "handles of %s compare wrongly", a.m == b.m ? "one resource" : "two resources");
                break;
            }
            }
            log("%lld t%lld k%lld %s a=%d b=%d", (long long) step, (long long) op.task, (long long) op.kind, what, a.m, b.m);
            verify(what);
        }
        // everything is released at the end
        {
            Sut in;
            for (auto & x : v) x.h.reset();
        }
        for (auto & x : v) x.m = -1;
        verify("the end");
        Sut in;
        for (auto x : res) delete x;
    }
    Registrar reg_handles("handles", gen_handles, run_handles);

    // ================================================================== standard-library-backed handles (U01)
    struct Counted {
        i64 value;
        Heap heap;
        explicit Counted(i64 v) : value(v), heap(v)
        {
            track::may_throw();
            track::born(this);
        }
        ~Counted() { track::died(this); }
    };
    using std_handle_t = mito::utilities::std_shared_ptr<Counted>;

    enum { S_MAKE, S_COPY, S_MOVE, S_ASSIGN, S_MASSIGN, S_SELF, S_DROP, S_SWAP, S_COMPARE };
    void gen_std(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 4);
        i64 n = r.range(10, tier ? 200 : 80);
        Swarm sw(r, { { S_MAKE, 3 }, { S_COPY, 3 }, { S_MOVE, 2 }, { S_ASSIGN, 3 }, { S_MASSIGN, 3 }, { S_SELF, 1 }, { S_DROP, 2 }, { S_SWAP, 1 }, { S_COMPARE, 1 } }, { S_MAKE });
        Scheduler sc(r, (int) p.cfg["clients"]);
        bool faults = r.chance(0.5);
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(64), r.below(64), r.below(64), r.below(64) };
            if (faults && o.kind == S_MAKE && r.chance(0.3)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM, F_CTOR });
                o.fn = r.range(1, 2);
            }
            p.ops.push_back(o);
        }
    }
    void run_std(const Plan & p)
    {
        start_memory(p);
        track::reset("U01/constructed-over-a-live-object", "U01/destroyed-twice");
        i64 blocks0 = mem::live_blocks();
        const int C = (int) p.get("clients", 1), K = 4;
        struct Var {
            std::optional<std_handle_t> h;
            i64 m = -1;
        };
        std::vector<Var> v((size_t) (C * K));
        auto count = [&](i64 m) {
            int n = 0;
            for (auto & x : v) n += x.h && x.m == m;
            return n;
        };
        i64 serial = 0, step = 0;
        std::map<i64, const void *> where;
        for (auto & op : p.ops) {
            at(step++);
            Var & a = v[(size_t) ((op.task % C) * K + op.a % K)];
            Var & b = v[(size_t) ((op.b / K % C) * K + op.b % K)];
            track::arm(op);
            Outcome o;
            i64 m = -1;
            switch (op.kind) {
            case S_MAKE:
                act(Op {}, [&] { a.h.reset(); });
                a.m = -1;
                m = ++serial;
                o = act(op, [&] { a.h.emplace(m); });
                if (o.ok) {
                    a.m = m;
                    where[m] = (const void *) a.h->operator->();
                } else if (!o.bad_alloc && !o.injected_ctor)
                    fail("U01/refused", "making a resource threw: %s", o.what.c_str());
                else
                    a.h.reset();
                break;
            case S_COPY: if (b.h && &a != &b) { act(op, [&] { a.h.reset(); a.h.emplace(std::as_const(*b.h)); }); a.m = b.m; } break;
            case S_MOVE: if (b.h && &a != &b) { act(op, [&] { a.h.reset(); a.h.emplace(std::move(*b.h)); }); a.m = b.m; b.m = -1; } break;
            case S_ASSIGN: if (a.h && b.h) { act(op, [&] { *a.h = *b.h; }); a.m = b.m; } break;
            case S_MASSIGN: if (a.h && b.h && &a != &b) { act(op, [&] { *a.h = std::move(*b.h); }); a.m = b.m; b.m = -1; } break;
            case S_SELF: if (a.h) act(op, [&] { auto & s = *a.h; *a.h = s; }); break;
            case S_DROP: act(op, [&] { a.h.reset(); }); a.m = -1; break;
            case S_SWAP: if (a.h && b.h && &a != &b) { act(op, [&] { std::swap(*a.h, *b.h); }); std::swap(a.m, b.m); } break;
            case S_COMPARE:
                if (a.h && b.h && a.m >= 0 && b.m >= 0) {
                    bool eq = *a.h == *b.h, lt = *a.h < *b.h, gt = *a.h > *b.h;
                    if (eq != (a.m == b.m) || (lt || gt) == eq || (lt && gt)) fail("U01/identity", "handles compare wrongly");
                }
                break;
            }
            track::disarm();
            i64 alive = 0;
            for (auto & [k, addr] : where)
                if (count(k) > 0) {
                    ++alive;
                    if (!track::alive(addr)) fail("U01/lifetime", "resource %lld was destroyed while %d handles designate it", (long long) k, count(k));
                }
            if ((i64) track::book().live.size() != alive) fail("U01/lifetime", "%zu resources are alive, %lld are designated by handles", track::book().live.size(), (long long) alive);
            for (auto & x : v) {
                if (!x.h) continue;
                if (x.m < 0) {
                    if (x.h->operator->() != nullptr) fail("U01/null", "a moved-from handle still designates something");
                } else if ((const void *) x.h->operator->() != where[x.m] || (*x.h)->value != x.m)
                    fail("U01/target", "a handle does not designate its resource");
            }
            log("%lld t%lld k%lld a=%lld b=%lld f%lld ok=%d", (long long) step, (long long) op.task, (long long) op.kind, (long long) a.m, (long long) b.m, (long long) op.fk, o.ok);
            state(hcomb((u64) alive, (u64) op.kind));
        }
        {
            Sut in;
            for (auto & x : v) x.h.reset();
        }
        if (track::book().live.size()) fail("U01/lifetime", "%zu resources outlive their handles", track::book().live.size());
        if (mem::live_blocks() != blocks0) fail("U01/leak", "%lld blocks were not returned", (long long) (mem::live_blocks() - blocks0));
    }
    Registrar reg_std("std_handles", gen_std, run_std);

    // ================================================================== repositories (U02, U03, U05)
    enum { R_EMPLACE, R_ERASE, R_COPY, R_DROP, R_LOOKUP, R_ITER, R_ITERPOST, R_MOVE, R_ERASENULL, R_RENEW, R_ERASESHARED, R_BURST, R_CLEAR };

    template <bool FAULTS>
    void gen_repo(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 4);
        p.cfg["repos"] = r.range(1, 2);
        p.cfg["segment"] = SEGS[r.below(7)];
        p.cfg["pad"] = r.below(2);
        i64 n = r.range(10, tier ? 400 : 120);
        Swarm sw(r, { { R_EMPLACE, 8 }, { R_ERASE, 6 }, { R_COPY, 2 }, { R_DROP, 1 }, { R_LOOKUP, 1 }, { R_ITER, 1 }, { R_ITERPOST, 1 }, { R_MOVE, 1 }, { R_ERASENULL, 0.3 }, { R_RENEW, 0.3 }, { R_ERASESHARED, 1 }, { R_BURST, FAULTS ? 2.0 : 0.5 }, { R_CLEAR, FAULTS ? 1.0 : 0.3 } }, { R_EMPLACE, R_ERASE });
        Scheduler sc(r, (int) p.cfg["clients"]);
        double pf = FAULTS ? (double) r.range(5, 40) / 100 : 0;
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(1000), r.below(1000), r.below(1000), r.below(1000) };
            if (FAULTS && (o.kind == R_EMPLACE || o.kind == R_ERASE || o.kind == R_BURST || o.kind == R_CLEAR) && r.chance(pf)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM, F_CTOR });
                o.fn = r.range(1, o.kind == R_EMPLACE ? 4 : 12);
            }
            p.ops.push_back(o);
        }
    }

    template <int PAD, bool FAULTS>
    void run_repo_(const Plan & p)
    {
        using res_t = Res<PAD>;
        using ptr_t = mito::utilities::shared_ptr<res_t>;
        using repo_t = mito::utilities::repository_t<ptr_t>;
        // in the configuration with faults, what goes wrong goes wrong after a fault
#define LBL(u, x) (FAULTS ? "U05/" x : u "/" x)
        start_memory(p);
        track::reset(LBL("U02,U03", "constructed-over-a-live-object"), LBL("U03", "destroyed-what-is-not-there"));
        i64 blocks0 = mem::live_blocks();
        const int C = (int) p.get("clients", 1), NR = (int) p.get("repos", 1), SEG = (int) p.get("segment", 3);
        struct Held {
            i64 value;
            res_t * addr;
            int refs;
        };
        struct Repo {
            std::optional<repo_t> real;
            std::map<i64, Held> held;    // serial -> resource
            i64 peak = 0, retired = 0;
        };
        struct Var {
            ptr_t h;
            int repo;
            i64 key;
        };
        std::vector<Repo> R((size_t) NR);
        std::vector<std::vector<Var>> V((size_t) C);
        i64 serial = 0;
        for (auto & x : R) {
            Sut in;
            x.real.emplace(SEG);
        }
        auto same_handles = [&](ptr_t && h) { return std::move(h); };
        (void) same_handles;

        auto scan = [&](Repo & x, int form, const char * where) {
            std::map<res_t *, i64> want;
            for (auto & [k, h] : x.held)
                if (h.refs > 0) want[h.addr] = k;
            std::set<res_t *> seen;
            i64 guard = 0, limit = (i64) x.real->capacity() + 1;
            auto visit = [&](const ptr_t & q) {
                Host back;
                res_t * a = q.operator->();
                if (!want.count(a)) fail(LBL("U02", "iteration-extra"), "after %s: iteration visits something that is not a held resource", where);
                if (!seen.insert(a).second) fail(LBL("U02", "iteration-twice"), "after %s: iteration visits a resource twice", where);
                if (q.references() != x.held[want[a]].refs + 1) fail(LBL("U02", "iteration-count"), "after %s: visiting a resource does not count as one reference", where);
            };
            Sut in;
            if (form == 0) {
                for (auto it = x.real->begin(); it != x.real->end(); ++it) {
                    if (++guard > limit) fail(LBL("U02", "iteration-endless"), "after %s: iteration does not end", where);
                    visit(*it);
                }
            } else if (form == 1) {
                for (auto it = x.real->begin(); it != x.real->end();) {
                    if (++guard > limit) fail(LBL("U02", "iteration-endless"), "after %s: iteration does not end", where);
                    visit(*it++);    // (what it pointed at)
                }
            } else {
                for (const auto & q : *x.real) {
                    if (++guard > limit) fail(LBL("U02", "iteration-endless"), "after %s: iteration does not end", where);
                    visit(q);
                }
            }
            Host back;
            if (seen.size() != want.size()) fail(LBL("U02", "iteration-missing"), "after %s: iteration visits %zu of %zu held resources", where, seen.size(), want.size());
        };
        auto verify = [&](const char * where) {
            u64 sh = 11;
            i64 total = 0;
            for (auto & x : R) {
                i64 n = (i64) x.held.size();
                total += n;
                if (x.real->size() != n) fail(LBL("U02", "size"), "after %s: size is %d, %lld resources are held", where, x.real->size(), (long long) n);
                i64 most = SEG * ((std::max<i64>(x.peak, 0) + SEG - 1) / SEG);
                if (FAULTS) most += SEG;
                if (x.real->capacity() > most || x.real->capacity() < n || x.real->capacity() % SEG)
                    fail(LBL("U02", "capacity"), "after %s: capacity is %d, at most %lld resources were held at once with segments of %d", where, x.real->capacity(), (long long) x.peak, SEG);
                std::set<res_t *> addrs;
                for (auto & [k, h] : x.held) {
                    if (!addrs.insert(h.addr).second) fail(LBL("U02", "address"), "two held resources share an address");
                    if (!track::alive(h.addr)) fail(LBL("U02,U03", "destroyed-while-held"), "after %s: held resource %lld has been destroyed", where, (long long) k);
                    if (!h.addr->intact(h.value)) fail(LBL("U02", "content"), "after %s: held resource %lld changed", where, (long long) k);
                    if (h.addr->is_valid() != (h.refs > 0)) fail(LBL("U02", "in-use"), "after %s: resource %lld with %d handles reports in-use=%d", where, (long long) k, h.refs, h.addr->is_valid());
                    sh = hcomb(sh, (u64) h.refs);
                }
                sh = hcomb(sh, (u64) x.real->capacity());
            }
            for (auto & c : V)
                for (auto & w : c) {
                    auto & h = R[(size_t) w.repo].held[w.key];
                    if (w.h.operator->() != h.addr) fail(LBL("U02", "address"), "after %s: a handle's resource moved", where);
                    if (w.h.references() != h.refs) fail(LBL("U02,U01", "count"), "after %s: %d references counted, %d handles", where, w.h.references(), h.refs);
                }
            if ((i64) track::book().live.size() != total)
                fail(LBL("U03", "live-elements"), "after %s: %zu elements are constructed, %lld are held", where, track::book().live.size(), (long long) total);
            state(sh);
        };

        i64 step = 0;
        auto emplace = [&](const Op & op, int ri, int me) {
            Repo & x = R[(size_t) ri];
            i64 key = ++serial;
            std::optional<ptr_t> got;
            track::arm(op);
            Outcome o = act(op, [&] { got.emplace(x.real->emplace(key)); });
            track::disarm();
            if (!o.ok) {
                if (!o.bad_alloc && !o.injected_ctor) fail(LBL("U02", "refused"), "inserting threw: %s", o.what.c_str());
                if (op.fk == 0) fail(LBL("U02", "refused"), "inserting failed without a fault");
                probe("insert-failed");
                return false;
            }
            if (got->is_nullptr()) fail(LBL("U02", "insert-null"), "inserting returned a null handle");
            res_t * a = got->operator->();
            for (auto & [k, h] : x.held)
                if (h.addr == a) fail(LBL("U02", "overwritten"), "a held resource was overwritten by an insertion");
            x.held[key] = Held { key, a, 1 };
            x.peak = std::max(x.peak, (i64) x.held.size());
            Sut in;
            V[(size_t) me].push_back(Var { std::move(*got), ri, key });
            return true;
        };
        auto drop = [&](std::vector<Var> & mine, size_t i) {
            R[(size_t) mine[i].repo].held[mine[i].key].refs--;
            Sut in;
            mine.erase(mine.begin() + (long) i);
        };
        // erase through one of my handles; the handle goes away if the resource does
        auto erase = [&](const Op & op, std::vector<Var> & mine, size_t i) {
            Var & w = mine[i];
            Repo & x = R[(size_t) w.repo];
            Held & h = x.held[w.key];
            bool sole = h.refs == 1, ret = false;
            track::arm(op);
            Outcome o = act(op, [&] { ret = x.real->erase(w.h); });
            track::disarm();
            if (!o.ok) {
                if (op.fk == 0 || !o.bad_alloc) fail(LBL("U02", "refused"), "erasing threw: %s", o.what.c_str());
                probe("erase-failed");
                if (w.h.is_nullptr()) fail("U05/half-erased", "a failed erasure nulled the handle");
                return;
            }
            if (!sole) {
                probe("erase-in-use");
                if (ret) fail(LBL("U02", "erase-in-use"), "erasing a resource with %d holders returned true", h.refs);
                if (w.h.is_nullptr()) fail(LBL("U02", "erase-in-use"), "refusing to erase nulled the handle");
                return;
            }
            if (!ret) fail(LBL("U02", "erase-refused"), "erasing an unshared resource returned false");
            if (!w.h.is_nullptr()) fail(LBL("U02", "erase-handle"), "the handle of an erased resource is not null");
            if (track::alive(h.addr)) fail(LBL("U03,U02", "erased-not-destroyed"), "an erased resource was not destroyed");
            x.held.erase(w.key);
            Sut in;
            mine.erase(mine.begin() + (long) i);
        };
        auto renew = [&](int ri) {
            for (auto & c : V)
                for (size_t i = c.size(); i-- > 0;)
                    if (c[i].repo == ri) drop(c, i);
            Repo & x = R[(size_t) ri];
            {
                Sut in;
                x.real.reset();
            }
            for (auto & [k, h] : x.held)
                if (track::alive(h.addr)) fail(LBL("U03", "not-destroyed"), "destroying a repository left resource %lld alive", (long long) k);
            x.held.clear();
            x.peak = 0;
        };
        for (auto & op : p.ops) {
            at(step++);
            int me = (int) (op.task % C), ri = (int) (op.b % NR);
            auto & mine = V[(size_t) me];
            auto & other = V[(size_t) (op.c % C)];
            Repo & x = R[(size_t) ri];
            const char * what = "";
            switch (op.kind) {
            case R_EMPLACE: what = "emplace"; emplace(op, ri, me); break;
            case R_BURST:
                what = "burst of insertions";
                for (i64 i = 0; i < 2 + op.a % (2 * SEG < 12 ? 12 : 2 * SEG > 80 ? 80 : 2 * SEG); ++i) {
                    Op q = op;
                    if (q.fk) {
                        if (i < op.fn) q.fk = 0;
                        q.fn = 1 + op.d % 3;
                    }
                    if (!emplace(q, ri, me)) break;
                }
                break;
            case R_ERASE: what = "erase"; if (!mine.empty()) erase(op, mine, (size_t) op.a % mine.size()); break;
            case R_CLEAR:
                what = "erase everything I hold";
                for (size_t i = mine.size(); i-- > 0;) {
                    Op q = op;
                    if (q.fk && op.c % 2 && (i64) i % 5 != op.fn % 5) q.fk = 0;
                    q.fn = 1;
                    erase(q, mine, op.d % 2 ? i : (size_t) 0 < mine.size() ? (mine.size() > i ? i : mine.size() - 1) : 0);
                }
                break;
            case R_ERASESHARED:
                what = "erase while shared";
                if (!mine.empty()) {
                    size_t i = (size_t) op.a % mine.size();
                    Var copy = mine[i];
                    R[(size_t) copy.repo].held[copy.key].refs++;
                    {
                        Sut in;
                        other.push_back(copy);
                        copy.h = ptr_t();
                    }
                    erase(op, mine, i);
                }
                break;
            case R_COPY:
                what = "copy a handle";
                if (!other.empty()) {
                    Sut in;
                    Var copy = other[(size_t) op.a % other.size()];
                    R[(size_t) copy.repo].held[copy.key].refs++;
                    mine.push_back(std::move(copy));
                }
                break;
            case R_DROP: what = "drop a handle"; if (!mine.empty()) drop(mine, (size_t) op.a % mine.size()); break;
            case R_LOOKUP:
                what = "look a resource up by its id";
                if (!x.held.empty()) {
                    auto it = x.held.begin();
                    std::advance(it, op.a % (i64) x.held.size());
                    if (it->second.refs == 0) probe("unreferenced-resource-revived");
                    std::optional<ptr_t> got;
                    act(Op {}, [&] { got.emplace(repo_t::resource((mito::utilities::index_t<res_t>) (uintptr_t) it->second.addr)); });
                    if (got->operator->() != it->second.addr) fail(LBL("U02", "lookup"), "looking up an id returned another resource");
                    it->second.refs++;
                    Sut in;
                    mine.push_back(Var { std::move(*got), ri, it->first });
                }
                break;
            case R_ITER: what = "iterate"; scan(x, 0, what); break;
            case R_ITERPOST: what = "iterate with postfix increment"; probe("postfix-iteration"); scan(x, 1, what); break;
            case R_MOVE:
                what = "hand over a handle";
                if (!mine.empty()) {
                    Sut in;
                    size_t i = (size_t) op.a % mine.size();
                    Var w = std::move(mine[i]);
                    mine.erase(mine.begin() + (long) i);
                    other.push_back(std::move(w));
                }
                break;
            case R_ERASENULL: {
                what = "erase a null handle";
                ptr_t null;
                bool ret = true;
                act(op, [&] { ret = x.real->erase(null); });
                if (ret) fail(LBL("U02", "erase-null"), "erasing a null handle returned true");
                break;
            }
            case R_RENEW: {
                what = "destroy and recreate the repository";
                renew(ri);
                Sut in;
                x.real.emplace(SEG);
                break;
            }
            }
            log("%lld t%lld %s r%d f%lld/%lld held=%zu", (long long) step, (long long) op.task, what, ri, (long long) op.fk, (long long) op.fn, x.held.size());
            verify(what);
            scan(x, 2, what);
        }
        for (int i = 0; i < NR; ++i) {
            scan(R[(size_t) i], 0, "the end");
            scan(R[(size_t) i], 1, "the end");
            renew(i);
        }
        {
            Sut in;
            for (auto & c : V) std::vector<Var>().swap(c);
        }
        if (!track::book().live.empty()) fail(LBL("U03", "not-destroyed"), "%zu elements were never destroyed", track::book().live.size());
        if (mem::live_blocks() != blocks0) fail(LBL("U03", "leak"), "%lld blocks of memory were not returned", (long long) (mem::live_blocks() - blocks0));
    }
    template <bool FAULTS>
    void run_repo(const Plan & p)
    {
        if (p.get("pad")) run_repo_<41, FAULTS>(p);
        else run_repo_<1, FAULTS>(p);
    }
    Registrar reg_repo("repo", gen_repo<false>, run_repo<false>);
    Registrar reg_repof("repo_faults", gen_repo<true>, run_repo<true>);

    // ================================================================== segmented vectors (U04, U03, U05)
    enum { V_EMPLACE, V_ERASE, V_REERASE, V_ITER, V_ITERPOST, V_INDEX, V_MOVE, V_RENEW, V_BURST, V_CLEAR };

    template <bool FAULTS>
    void gen_vec(Rng & r, Plan & p, int tier)
    {
        plan_memory(r, p);
        p.cfg["clients"] = r.range(1, 3);
        p.cfg["vectors"] = r.range(1, 2);
        p.cfg["segment"] = SEGS[r.below(7)];
        p.cfg["pad"] = r.below(2);
        i64 n = r.range(10, tier ? 400 : 120);
        Swarm sw(r, { { V_EMPLACE, 8 }, { V_ERASE, 6 }, { V_REERASE, 1 }, { V_ITER, 1 }, { V_ITERPOST, 1 }, { V_INDEX, 1 }, { V_MOVE, 0.5 }, { V_RENEW, 0.2 }, { V_BURST, FAULTS ? 2.0 : 0.5 }, { V_CLEAR, FAULTS ? 1.0 : 0.2 } }, { V_EMPLACE, V_ERASE });
        Scheduler sc(r, (int) p.cfg["clients"]);
        double pf = FAULTS ? (double) r.range(5, 40) / 100 : 0;
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), sw.pick(r), r.below(1000), r.below(1000), r.below(1000), r.below(1000) };
            if (FAULTS && (o.kind == V_EMPLACE || o.kind == V_ERASE || o.kind == V_BURST || o.kind == V_CLEAR) && r.chance(pf)) {
                o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM, F_CTOR });
                o.fn = r.range(1, o.kind == V_EMPLACE ? 4 : 12);
            }
            p.ops.push_back(o);
        }
    }

    template <class elem_t, bool FAULTS>
    void run_vec_(const Plan & p)
    {
        using vec_t = mito::utilities::segmented_vector_t<elem_t>;
        start_memory(p);
        track::reset(LBL("U04,U03", "constructed-over-a-live-object"), LBL("U03", "destroyed-what-is-not-there"));
        i64 blocks0 = mem::live_blocks();
        const int NV = (int) p.get("vectors", 1), SEG = (int) p.get("segment", 3);
        struct Vec {
            std::optional<vec_t> real;
            std::map<elem_t *, i64> held;      // address -> value
            std::set<elem_t *> erased;         // erased and the slot not used again
            std::set<elem_t *> slots;          // every slot ever used
            i64 peak = 0;
        };
        std::vector<Vec> W((size_t) NV);
        for (auto & x : W) {
            Sut in;
            x.real.emplace(SEG);
        }
        i64 serial = 0;
        // returns the addresses in the order of iteration
        auto scan = [&](Vec & x, int form, const char * where) {
            std::vector<elem_t *> seen;
            std::set<elem_t *> once;
            i64 guard = 0, limit = (i64) x.real->capacity() + 1;
            auto visit = [&](elem_t & e) {
                Host back;
                if (++guard > limit) fail(LBL("U04", "iteration-endless"), "after %s: iteration does not end", where);
                if (!x.held.count(&e)) fail(LBL("U04", "iteration-extra"), "after %s: iteration visits something that is not a held element", where);
                if (!once.insert(&e).second) fail(LBL("U04", "iteration-twice"), "after %s: iteration visits an element twice", where);
                seen.push_back(&e);
            };
            {
                Sut in;
                if (form == 0)
                    for (auto it = x.real->begin(); it != x.real->end(); ++it) visit(*it);
                else if (form == 1)
                    for (auto it = x.real->begin(); it != x.real->end();) visit(*it++);
                else
                    for (auto & e : *x.real) visit(e);
            }
            if (seen.size() != x.held.size()) fail(LBL("U04", "iteration-missing"), "after %s: iteration visits %zu of %zu elements", where, seen.size(), x.held.size());
            return seen;
        };
        auto index = [&](Vec & x, const char * where) {
            // positions 0, 1, ... of the slots used so far
            std::vector<elem_t *> by_position;
            std::set<elem_t *> all;
            for (size_t i = 0; i < x.slots.size(); ++i) {
                elem_t * e = nullptr;
                Outcome o = act(Op {}, [&] { e = &(*x.real)[(int) i]; });
                if (!o.ok) fail(LBL("U04", "index"), "after %s: access by position %zu of %zu threw: %s", where, i, x.slots.size(), o.what.c_str());
                const elem_t * ce = &std::as_const(*x.real)[(int) i];
                if (ce != e) fail(LBL("U04", "index"), "after %s: the two accesses by position %zu disagree", where, i);
                if (!x.slots.count(e)) fail(LBL("U04", "index"), "after %s: position %zu holds no element that was ever inserted", where, i);
                if (!all.insert(e).second) fail(LBL("U04", "index"), "after %s: two positions reach one element", where);
                if (x.held.count(e)) by_position.push_back(e);
            }
            if (by_position != scan(x, 0, where)) fail(LBL("U04", "order"), "after %s: iteration is not in positional order", where);
        };
        auto verify = [&](const char * where) {
            i64 total = 0;
            u64 sh = 17;
            for (auto & x : W) {
                i64 n = (i64) x.held.size();
                if (x.real->size() != n) fail(LBL("U04", "size"), "after %s: size is %d, %lld elements are held", where, x.real->size(), (long long) n);
                i64 most = SEG * ((x.peak + SEG - 1) / SEG);
                if (FAULTS) most += SEG;
                if (x.real->capacity() > most || x.real->capacity() < n || x.real->capacity() % SEG)
                    fail(LBL("U04", "capacity"), "after %s: capacity is %d, at most %lld elements were held at once with segments of %d", where, x.real->capacity(), (long long) x.peak, SEG);
                for (auto & [a, v] : x.held) {
                    if (!track::alive(a)) fail(LBL("U04,U03", "destroyed-while-held"), "after %s: a held element has been destroyed", where);
                    if (!a->is_valid()) fail(LBL("U04", "invalid"), "after %s: a held element is marked invalid", where);
                    if (!a->intact(v)) fail(LBL("U04", "content"), "after %s: element %lld changed", where, (long long) v);
                }
                total += n + (i64) x.erased.size();
                sh = hcomb(hcomb(sh, (u64) n), (u64) x.erased.size());
            }
            // every live element is held, or erased and awaiting the reuse of its slot
            if ((i64) track::book().live.size() > total) fail(LBL("U03", "live-elements"), "after %s: %zu elements are constructed, only %lld are accounted for", where, track::book().live.size(), (long long) total);
            state(sh);
        };
        auto emplace = [&](const Op & op_, Vec & x) {
            i64 v = ++serial;
            elem_t * e = nullptr;
            Op op = op_;
            // a known finding: see known-findings.json
            if (std::is_same_v<elem_t, Pinned> && !x.erased.empty() && !p.get("fail-on-reuse")) op.fk = 0;
            track::arm(op);
            Outcome o = act(op, [&] { e = &x.real->emplace(v); });
            track::disarm();
            if (!o.ok) {
                if (op.fk == 0 || (!o.bad_alloc && !o.injected_ctor)) fail(LBL("U04", "refused"), "inserting threw: %s", o.what.c_str());
                probe("insert-failed");
                return false;
            }
            if (x.held.count(e)) fail(LBL("U04", "overwritten"), "a held element was overwritten by an insertion");
            if (x.erased.erase(e)) probe("slot-reused");
            x.held[e] = v;
            x.slots.insert(e);
            x.peak = std::max(x.peak, (i64) x.held.size());
            return true;
        };
        auto erase = [&](const Op & op, Vec & x, elem_t * e) {
            bool ret = false;
            Outcome o = act(op, [&] { ret = x.real->erase(*e); });
            if (!o.ok) {
                if (op.fk == 0 || !o.bad_alloc) fail(LBL("U04", "refused"), "erasing threw: %s", o.what.c_str());
                probe("erase-failed");
                return;
            }
            if (!ret) fail(LBL("U04", "erase-refused"), "erasing a held element returned false");
            x.held.erase(e);
            x.erased.insert(e);
        };
        auto pick = [](auto & m, i64 k) {
            auto it = m.begin();
            std::advance(it, k % (i64) m.size());
            return it;
        };
        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            Vec & x = W[(size_t) (op.b % NV)];
            const char * what = "";
            switch (op.kind) {
            case V_EMPLACE: what = "emplace"; emplace(op, x); break;
            case V_BURST:
                what = "burst of insertions";
                for (i64 i = 0; i < 2 + op.a % (2 * SEG < 12 ? 12 : 2 * SEG > 80 ? 80 : 2 * SEG); ++i) {
                    Op q = op;
                    if (q.fk) {
                        if (i < op.fn) q.fk = 0;
                        q.fn = 1 + op.d % 3;
                    }
                    if (!emplace(q, x)) break;
                }
                break;
            case V_ERASE: what = "erase"; if (!x.held.empty()) erase(op, x, scan(x, 0, what)[(size_t) op.a % x.held.size()]); break;
            case V_CLEAR:
                what = "erase everything";
                {
                    auto order = scan(x, 0, what);
                    if (op.d % 2) std::reverse(order.begin(), order.end());
                    for (size_t i = 0; i < order.size(); ++i) {
                        Op q = op;
                        if (q.fk && op.c % 2 && (i64) i % 5 != op.fn % 5) q.fk = 0;
                        q.fn = 1;
                        erase(q, x, order[i]);
                    }
                }
                break;
            case V_REERASE:
                what = "erase again";
                if (!x.erased.empty()) {
                    auto e = *pick(x.erased, op.a);
                    if (!track::alive(e)) break;    // the slot holds no object any more
                    bool ret = true;
                    act(Op {}, [&] { ret = x.real->erase(*e); });
                    if (ret) fail(LBL("U04", "re-erase"), "erasing an element a second time returned true");
                    probe("erase-again");
                }
                break;
            case V_ITER: what = "iterate"; scan(x, 0, what); break;
            case V_ITERPOST: what = "iterate with postfix increment"; scan(x, 1, what); break;
            case V_INDEX: what = "access by position"; if (!FAULTS) index(x, what); break;
            case V_MOVE: {
                what = "move the vector";
                Vec & y = W[(size_t) ((op.b + 1) % NV)];
                if (op.c % 3 == 0 && NV > 1) {
                    // into a new vector in the place of another one; the one it came from goes on empty
                    what = "move the vector into another one";
                    {
                        Sut in;
                        y.real.reset();
                    }
                    for (auto s : y.slots)
                        if (track::alive(s)) fail(LBL("U03", "not-destroyed"), "destroying a vector left an element alive");
                    {
                        Sut in;
                        y.real.emplace(std::move(*x.real));
                    }
                    y.held = std::exchange(x.held, {});
                    y.erased = std::exchange(x.erased, {});
                    y.slots = std::exchange(x.slots, {});
                    y.peak = std::exchange(x.peak, 0);
                    probe("moved-from-goes-on");
                    scan(y, 0, what);
                    break;
                }
                Sut in;
                {
                    vec_t other(std::move(*x.real));
                    if (op.c % 3 == 1) {
                        // the one it was moved from takes an element of its own meanwhile
                        auto & e = x.real->emplace(-5);
                        Host h;
                        if (x.real->size() != 1 || !e.intact(-5)) fail(LBL("U04,U03", "moved-from"), "a vector that was moved from holds %d elements after one was inserted", x.real->size());
                        if (x.held.count(&e) || x.erased.count(&e)) fail(LBL("U04,U03", "moved-from"), "an insertion into a vector that was moved from took a place of the vector it was moved into");
                    }
                    x.real.reset();
                    x.real.emplace(std::move(other));
                }
                break;
            }
            case V_RENEW: {
                what = "destroy and recreate the vector";
                {
                    Sut in;
                    x.real.reset();
                }
                for (auto s : x.slots)
                    if (track::alive(s)) fail(LBL("U03", "not-destroyed"), "destroying a vector left an element alive");
                x.held.clear();
                x.erased.clear();
                x.slots.clear();
                x.peak = 0;
                Sut in;
                x.real.emplace(SEG);
                break;
            }
            }
            log("%lld t%lld %s f%lld/%lld held=%zu", (long long) step, (long long) op.task, what, (long long) op.fk, (long long) op.fn, x.held.size());
            verify(what);
            scan(x, 2, what);
        }
        for (auto & x : W) {
            scan(x, 1, "the end");
            if (!FAULTS) index(x, "the end");
            Sut in;
            x.real.reset();
        }
        if (!track::book().live.empty()) fail(LBL("U03", "not-destroyed"), "%zu elements were never destroyed", track::book().live.size());
        if (mem::live_blocks() != blocks0) fail(LBL("U03", "leak"), "%lld blocks of memory were not returned", (long long) (mem::live_blocks() - blocks0));
    }
    template <bool FAULTS>
    void run_vec(const Plan & p)
    {
        if (p.get("pad")) run_vec_<Elem<41>, FAULTS>(p);
        else run_vec_<Elem<1>, FAULTS>(p);
    }
    Registrar reg_vec("vec", gen_vec<false>, run_vec<false>);
    Registrar reg_vecp("vec_pinned_faults", gen_vec<true>, run_vec_<Pinned, true>);
    Registrar reg_vecf("vec_faults", gen_vec<true>, run_vec<true>);
}    // namespace
