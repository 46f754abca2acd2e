// Deterministic simulation kernel for mitadel/mito.
//
// One 64-bit run seed decides everything a run does: the per-run configuration, which simulated
// client acts next, what it does, where the simulated allocator places memory, and which faults are
// injected where. A run is first *planned* (seed -> Plan: configuration + a flat list of scheduled
// operations with their faults) and then *executed* (Plan -> event log + verdict). Execution is a
// pure function of the plan and of the code under test, so a plan file is a replay file, and
// shrinking a failure is editing the plan.
#pragma once

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <new>
#include <utility>

namespace sim {

    using i64 = std::int64_t;
    using u64 = std::uint64_t;

    // ------------------------------------------------------------------ randomness
    inline u64 mix(u64 x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    inline u64 hcomb(u64 h, u64 v) { return mix(h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2))); }
    inline u64 hstr(const char * s)
    {
        u64 h = 1469598103934665603ull;
        for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
        return h;
    }

    class Rng {
        u64 _s;

      public:
        explicit Rng(u64 seed = 0) : _s(mix(seed ^ 0xD1B54A32D192ED03ull)) {}
        u64 next()
        {
            _s += 0x9E3779B97F4A7C15ull;
            u64 z = _s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        // uniform in [0, n)
        i64 below(i64 n) { return n <= 0 ? 0 : (i64) (next() % (u64) n); }
        // uniform in [a, b]
        i64 range(i64 a, i64 b) { return a + below(b - a + 1); }
        bool chance(double p) { return (next() >> 11) * 0x1.0p-53 < p; }
        double unit() { return (next() >> 11) * 0x1.0p-53; }
        i64 pick(std::initializer_list<i64> l) { return *(l.begin() + below((i64) l.size())); }
    };

    // ------------------------------------------------------------------ plans
    // fault kinds that an operation may carry
    enum FaultKind : int {
        F_NONE = 0,
        F_ALLOC_ONE = 1,     // the fn-th allocation made by the operation fails
        F_ALLOC_FROM = 2,    // every allocation from the fn-th on fails, until the operation ends
        F_CTOR = 3,          // the element constructor throws on its fn-th invocation in the operation
        F_IO = 4,            // scenario-defined I/O or external-call fault, parameter fn
    };

    struct Op {
        i64 task = 0;              // the simulated client that was scheduled
        i64 kind = 0;              // scenario-defined operation kind
        i64 a = 0, b = 0, c = 0, d = 0;    // arguments (interpreted modulo the current state)
        i64 fk = 0, fn = 0;        // injected fault and its parameter
    };

    struct Plan {
        std::string scenario;
        u64 seed = 0;
        std::map<std::string, i64> cfg;
        std::vector<Op> ops;
        i64 get(const char * key, i64 dflt = 0) const
        {
            auto it = cfg.find(key);
            return it == cfg.end() ? dflt : it->second;
        }
    };

    // ------------------------------------------------------------------ simulated memory
    namespace mem {
        // restart the arena; the placement of every later block is decided by {seed}/{mode}
        void reset(u64 seed, int mode, int reuse_percent);
        // fault injection for the next operation of the system under test
        void arm(int kind, i64 n);
        // number of injected allocation failures since arm()
        i64 disarm();
        // blocks allocated by the system under test and not yet freed
        i64 live_blocks();
        i64 live_bytes();
        // allocations made by the system under test since arm()
        i64 allocs_since_arm();
    }    // namespace mem

    // while one of these is alive, we are inside the system under test: allocations come from the
    // arena and may be made to fail
    struct Sut {
        Sut();
        ~Sut();
        Sut(const Sut &) = delete;
        int saved;
    };
    // while one of these is alive, we are back in the harness (e.g. in a callback)
    struct Host {
        Host();
        ~Host();
        Host(const Host &) = delete;
        int saved;
    };

    // ------------------------------------------------------------------ reporting from a run
    // a violation: record it and end the run
    [[noreturn]] void fail(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
    // an event of the run: feeds the event-log hash (and is printed when replaying verbosely)
    void log(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
    // a state was reached (any 64-bit abstraction of it)
    void state(u64 h);
    // a rare condition was hit
    void probe(const char * name, i64 n = 1);
    // a fault fired
    void fault(const char * name, i64 n = 1);
    // an operation on the real code completed
    void did(i64 n = 1);
    // the index of the operation being executed
    void at(i64 step);
    bool verbose();

    inline void check(bool ok, const char * cls, const char * what)
    {
        if (!ok) fail(cls, "%s", what);
    }

    // ------------------------------------------------------------------ scenarios
    struct Scenario {
        const char * name;
        // seed -> plan (only the rng may be consulted)
        void (*gen)(Rng &, Plan &, int tier);
        // plan -> event log and verdict (in a process of its own)
        void (*run)(const Plan &);
    };
    void add(const Scenario &);
    struct Registrar {
        Registrar(const char * n, void (*g)(Rng &, Plan &, int), void (*r)(const Plan &))
        {
            add(Scenario { n, g, r });
        }
    };
    // run once in the zygote before any run is forked (library initialisation and the like)
    void on_start(void (*)());

    int main(int argc, char ** argv);

    // ------------------------------------------------------------------ planning helpers
    // a swarm: each run enables a random subset of the operation kinds and reweighs it
    struct Swarm {
        std::vector<std::pair<i64, double>> w;
        double total = 0;
        // {must}: kinds that are never disabled
        Swarm(Rng & r, std::initializer_list<std::pair<i64, double>> kinds,
              std::initializer_list<i64> must = {})
        {
            static const double scale[] = { 0.25, 0.5, 1, 1, 2, 4 };
            for (auto [k, base] : kinds) {
                bool keep = false;
                for (auto m : must) keep |= (m == k);
                bool drop = r.chance(0.15);
                double f = scale[r.below(6)];
                if (drop && !keep) continue;
                w.push_back({ k, base * f });
                total += base * f;
            }
        }
        i64 pick(Rng & r) const
        {
            double x = r.unit() * total;
            for (auto & [k, p] : w) {
                if (x < p) return k;
                x -= p;
            }
            return w.back().first;
        }
    };

    // the seeded scheduler: which client acts at the next step
    struct Scheduler {
        int tasks, policy, cur = 0;
        i64 left = 0;
        Scheduler(Rng & r, int n) : tasks(n), policy((int) r.below(3)) {}
        int next(Rng & r)
        {
            if (tasks <= 1) return 0;
            if (policy == 0) return (int) r.below(tasks);          // uniform
            if (policy == 1) return cur = (cur + 1) % tasks;        // round robin
            if (left-- <= 0) {                                      // bursts
                cur = (int) r.below(tasks);
                left = r.range(1, 8);
            }
            return cur;
        }
    };

    // draw the placement of simulated memory for a run
    inline void plan_memory(Rng & r, Plan & p)
    {
        p.cfg["mem.seed"] = (i64) (r.next() & 0x7fffffff);
        p.cfg["mem.mode"] = r.below(3);
        p.cfg["mem.reuse"] = r.pick({ 0, 50, 100 });
    }
    inline void start_memory(const Plan & p)
    {
        mem::reset((u64) p.get("mem.seed", 1), (int) p.get("mem.mode"), (int) p.get("mem.reuse"));
    }

    // run {f} as one operation of the system under test with the fault carried by {op} armed;
    // returns true if it returned, false if it threw; {what} is the exception's text
    struct Outcome {
        bool ok = true;
        bool bad_alloc = false;
        bool injected_ctor = false;
        i64 fired = 0;
        std::string what;
    };
    struct InjectedFault : public std::exception {
        const char * what() const noexcept override { return "injected fault"; }
    };
    template <class F>
    Outcome act(const Op & op, F && f)
    {
        Outcome o;
        i64 fk = op.fk == F_ALLOC_ONE || op.fk == F_ALLOC_FROM ? op.fk : 0;
        mem::arm((int) fk, op.fn);
        try {
            Sut in;
            f();
        } catch (const std::bad_alloc &) {
            o.ok = false;
            o.bad_alloc = true;
        } catch (const InjectedFault &) {
            o.ok = false;
            o.injected_ctor = true;
        } catch (const std::exception & e) {
            o.fired = mem::disarm();
            o.ok = false;
            o.what = e.what();
            if (o.what.empty()) o.what = "exception";
        }
        if (o.what.empty()) o.fired = mem::disarm();
        if (o.fired) fault(op.fk == F_ALLOC_ONE ? "allocation-failure" : "allocation-exhaustion", o.fired);
        did();
        return o;
    }
}    // namespace sim
