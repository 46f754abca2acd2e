// The simulation runtime: simulated memory, one process per run, batches over seeds, minimisation,
// replay files, statistics. Compiled without sanitizer instrumentation (it owns the redzones).
#include "sim.h"

#include <atomic>
#include <algorithm>
#include <set>
#include <cassert>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <cinttypes>
#include <fcntl.h>
#include <new>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" const char * __asan_get_report_description() __attribute__((weak));
extern "C" const char * __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "alloc_dealloc_mismatch=0:handle_abort=0:handle_sigfpe=1:quarantine_size_mb=4:"
           "malloc_context_size=0:symbolize=0:use_sigaltstack=1";
}

namespace sim {

    // ------------------------------------------------------------------ shared state
    static constexpr int MAXW = 64, MAXC = 256;
    enum { ST_IDLE = 0, ST_RUNNING = 1, ST_OK = 2, ST_FAIL = 3 };
    struct Slot {
        volatile int status;
        char cls[160];
        char msg[1024];
        i64 step;
        u64 hash;
        i64 done;
        bool want_text;
        size_t text_len;
        char text[1 << 16];
    };
    struct Counter {
        std::atomic<int> used;
        char name[56];
        std::atomic<i64> n;       // total
        std::atomic<i64> runs;    // runs in which it was hit
    };
    static constexpr size_t SETN = 1u << 22;
    struct Shared {
        std::atomic<i64> next;        // next run index
        std::atomic<i64> first_fail;    // smallest failing run index so far (or INT64_MAX)
        std::atomic<i64> runs, did, ops, known;
        std::atomic<int> stop;
        Counter probes[MAXC];
        Counter faults[MAXC];
        std::atomic<u64> states[SETN];
        std::atomic<i64> nstates;
        std::atomic<u64> logs[SETN];
        std::atomic<i64> nlogs, nnontrivial;
        std::atomic<u64> inter[SETN];
        std::atomic<i64> ninter;
        char knowncls[32][160];
        std::atomic<i64> knownhits[32];
        int nknown;
        std::atomic<i64> blocked;    // runs cut short by a failure that belongs to another property
        char blockedcls[160];
        Slot slots[MAXW];
    };
    static Shared * g;
    static Slot * me;            // the slot of the run being executed (child only)
    static int depth;            // >0: inside the system under test
    static std::map<std::string, i64> * my_hits;    // names hit in this run

    static bool set_insert(std::atomic<u64> * tab, u64 h)
    {
        if (h == 0) h = 1;
        for (size_t i = 0, k = h % SETN; i < 64; ++i, k = (k + 1) % SETN) {
            u64 cur = tab[k].load(std::memory_order_relaxed);
            if (cur == h) return false;
            if (cur == 0) {
                u64 z = 0;
                if (tab[k].compare_exchange_strong(z, h)) return true;
                if (z == h) return false;
            }
        }
        return false;    // table saturated: stop counting (the count is a lower bound)
    }

    static Counter * counter(Counter * tab, const char * name)
    {
        for (int i = 0; i < MAXC; ++i) {
            int u = tab[i].used.load();
            if (u == 2 && strncmp(tab[i].name, name, 55) == 0) return &tab[i];
            if (u == 0) {
                int z = 0;
                if (tab[i].used.compare_exchange_strong(z, 1)) {
                    strncpy(tab[i].name, name, 55);
                    tab[i].used.store(2);
                    return &tab[i];
                }
                --i;
                continue;
            }
            if (u == 1) { --i; continue; }
        }
        return nullptr;
    }

    // ------------------------------------------------------------------ memory
    namespace mem {
        static constexpr uintptr_t BASE = 0x200000000000ull;
        static constexpr int ZONES = 32;
        static constexpr size_t ZONE = 64u << 20;
        static constexpr size_t CAP = 192u << 20;    // simulated machine memory
        struct Hdr {
            u64 magic;
            u64 size;
        };
        static constexpr u64 LIVE = 0x4C4956454C495645ull, DEAD = 0x4445414444454144ull;
        static constexpr size_t RED = 32;

        struct Arena {
            uintptr_t up[ZONES], down[ZONES];
            u64 rng;
            int mode, reuse;
            i64 nlive, blive, nalloc;
            int fk;
            i64 fn, fired;
            void * freelist[256];
        };
        static Arena A;
        static bool mapped;

        static u64 rnd()
        {
            A.rng += 0x9E3779B97F4A7C15ull;
            return mix(A.rng);
        }

        static void poison(void * p, size_t n)
        {
            if (__asan_poison_memory_region) __asan_poison_memory_region(p, n);
        }
        static void unpoison(void * p, size_t n)
        {
            if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
        }

        void reset(u64 seed, int mode, int reuse)
        {
            if (!mapped) {
                void * p = mmap(
                    (void *) BASE, ZONES * ZONE, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
                if (p != (void *) BASE) {
                    fprintf(stderr, "sim: cannot map the arena\n");
                    _exit(2);
                }
                mapped = true;
            }
            // blocks that are already out (from start-up) stay where they are
            bool first = A.up[0] == 0;
            if (first)
                for (int z = 0; z < ZONES; ++z) {
                    A.up[z] = BASE + z * ZONE;
                    A.down[z] = BASE + (z + 1) * ZONE;
                }
            A.rng = seed;
            A.mode = mode;
            A.reuse = reuse;
            A.nlive = A.blive = 0;
        }

        static void * take(size_t size)
        {
            size_t user = (size + 15) & ~(size_t) 15;
            if (user == 0) user = 16;
            if (user > CAP || A.blive + (i64) user > (i64) CAP) return nullptr;
            size_t cls = user / 16;
            if (cls < 256 && A.freelist[cls]) {
                char * p = (char *) A.freelist[cls];
                unpoison(p - sizeof(Hdr), sizeof(Hdr) + user);
                A.freelist[cls] = *(void **) p;
                Hdr * h = (Hdr *) (p - sizeof(Hdr));
                h->magic = LIVE;
                h->size = size;
                memset(p, 0xA5, user);
                poison(h, sizeof(Hdr));
                if (size < user) poison(p + size, user - size);
                return p;
            }
            size_t total = sizeof(Hdr) + user + RED;
            int z = 0;
            uintptr_t at;
            if (A.mode == 2) {
                z = (int) (rnd() % ZONES);
                total += (rnd() % 4) * 16;
            }
            for (int tries = 0; A.up[z] + total > A.down[z]; ++tries) {
                if (tries > ZONES) return nullptr;
                z = (z + 1) % ZONES;
            }
            if (A.mode == 1) {
                A.down[z] -= total;
                at = A.down[z];
            } else {
                at = A.up[z];
                A.up[z] += total;
            }
            Hdr * h = (Hdr *) at;
            char * p = (char *) at + sizeof(Hdr);
            h->magic = LIVE;
            h->size = size;
            memset(p, 0xA5, user);
            poison(h, sizeof(Hdr));
            poison(p + size, total - sizeof(Hdr) - size);
            return p;
        }

        static bool inside(void * p) { return (uintptr_t) p >= BASE && (uintptr_t) p < BASE + ZONES * ZONE; }

        static void give(void * p)
        {
            Hdr * h = (Hdr *) ((char *) p - sizeof(Hdr));
            unpoison(h, sizeof(Hdr));
            u64 magic = h->magic;
            if (magic != LIVE) {
                if (magic == DEAD) sim::fail("memory/double-free", "block freed twice");
                sim::fail("memory/bad-free", "free of an address that was never allocated");
            }
            h->magic = DEAD;
            size_t size = h->size, user = (size + 15) & ~(size_t) 15;
            if (user == 0) user = 16;
            --A.nlive;
            A.blive -= (i64) size;
            unpoison(p, user);
            memset(p, 0xDD, user);
            size_t cls = user / 16;
            if (cls < 256 && A.reuse && (int) (rnd() % 100) < A.reuse) {
                *(void **) p = A.freelist[cls];
                A.freelist[cls] = p;
            }
            poison(h, sizeof(Hdr) + user);
        }

        static void * alloc(size_t n)
        {
            if (depth <= 0) return malloc(n ? n : 1);
            ++A.nalloc;
            if ((A.fk == F_ALLOC_ONE && A.nalloc == A.fn) || (A.fk == F_ALLOC_FROM && A.nalloc >= A.fn)) {
                ++A.fired;
                return nullptr;
            }
            void * p = take(n);
            if (p) {
                ++A.nlive;
                A.blive += (i64) n;
            }
            return p;
        }
        static void dealloc(void * p)
        {
            if (!p) return;
            if (inside(p)) return give(p);
            free(p);
        }

        void arm(int kind, i64 n)
        {
            A.fk = kind;
            A.fn = n < 1 ? 1 : n;
            A.nalloc = 0;
            A.fired = 0;
        }
        i64 disarm()
        {
            A.fk = 0;
            return A.fired;
        }
        i64 live_blocks() { return A.nlive; }
        i64 live_bytes() { return A.blive; }
        i64 allocs_since_arm() { return A.nalloc; }
    }    // namespace mem

    Sut::Sut() : saved(depth) { depth = 1; }
    Sut::~Sut() { depth = saved; }
    Host::Host() : saved(depth) { depth = 0; }
    Host::~Host() { depth = saved; }

    // ------------------------------------------------------------------ run-side reporting
    [[noreturn]] static void finish(int st)
    {
        if (me) {
            // account for what was hit in this run
            if (my_hits && (st == ST_OK)) {
                for (auto & [name, n] : *my_hits) {
                    Counter * c = counter(name[0] == 'F' ? g->faults : g->probes, name.c_str() + 1);
                    if (c) {
                        c->n += n;
                        c->runs += 1;
                    }
                }
            }
            me->status = st;
        }
        _exit(st == ST_OK ? 0 : 3);
    }

    static void record_fail(const char * cls, const char * msg)
    {
        if (!me) {
            fprintf(stderr, "sim: failure outside a run: %s: %s\n", cls, msg);
            _exit(2);
        }
        strncpy(me->cls, cls, sizeof(me->cls) - 1);
        strncpy(me->msg, msg, sizeof(me->msg) - 1);
        for (char * p = me->msg; *p; ++p)
            if (*p == '\n') *p = ' ';
    }

    static void text(const char * s)
    {
        if (!me || !me->want_text) return;
        size_t n = strlen(s);
        if (me->text_len + n + 2 >= sizeof(me->text)) return;
        memcpy(me->text + me->text_len, s, n);
        me->text_len += n;
        me->text[me->text_len++] = '\n';
        me->text[me->text_len] = 0;
    }

    void fail(const char * cls, const char * fmt, ...)
    {
        depth = 0;
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        record_fail(cls, buf);
        char line[1300];
        snprintf(line, sizeof line, "!! %s: %s", cls, buf);
        text(line);
        finish(ST_FAIL);
    }
    void log(const char * fmt, ...)
    {
        int sd = depth;
        depth = 0;
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (me) me->hash = hcomb(me->hash, hstr(buf));
        text(buf);
        depth = sd;
    }
    void state(u64 h)
    {
        if (set_insert(g->states, h)) ++g->nstates;
    }
    static void hit(char k, const char * name, i64 n)
    {
        int sd = depth;
        depth = 0;
        if (my_hits) (*my_hits)[std::string(1, k) + name] += n;
        depth = sd;
    }
    void probe(const char * name, i64 n) { hit('P', name, n); }
    void fault(const char * name, i64 n) { hit('F', name, n); }
    void did(i64 n)
    {
        if (me) me->done += n;
    }
    void at(i64 s)
    {
        if (me) me->step = s;
    }
    bool verbose() { return me && me->want_text; }

    static std::vector<Scenario> & scenarios()
    {
        static std::vector<Scenario> v;
        return v;
    }
    void add(const Scenario & s) { scenarios().push_back(s); }
    static std::vector<void (*)()> & starters()
    {
        static std::vector<void (*)()> v;
        return v;
    }
    void on_start(void (*f)()) { starters().push_back(f); }

    static const Scenario & find(const std::string & n)
    {
        for (auto & s : scenarios())
            if (n == s.name) return s;
        fprintf(stderr, "sim: no scenario %s\n", n.c_str());
        _exit(2);
    }

    // A failure class reads "<where>/<what>". {where} is a comma separated list of property ids, or a
    // generic word (memory, crash, assert, ...) when the code failed in a way no property allows.
    // With a focus on property P, only the failures that contradict P count; a run that ends in a
    // failure of another property is counted as cut short.
    static std::string focus;
    static bool in_focus(const std::string & cls)
    {
        if (focus.empty()) return true;
        std::string where = cls.substr(0, cls.find('/'));
        if (where.empty() || !(where[0] >= 'A' && where[0] <= 'Z')) return true;
        size_t i = 0;
        while (i <= where.size()) {
            size_t j = where.find(',', i);
            if (j == std::string::npos) j = where.size();
            if (where.substr(i, j - i) == focus) return true;
            i = j + 1;
        }
        return false;
    }

    // ------------------------------------------------------------------ executing one plan
    struct Result {
        int status;
        std::string cls, msg;
        i64 step, done;
        u64 hash;
    };

    static void on_signal(int sig)
    {
        char cls[64];
        if (sig == SIGABRT)
            snprintf(cls, sizeof cls, "crash/abort");
        else if (sig == SIGXCPU || sig == SIGALRM)
            snprintf(cls, sizeof cls, "liveness/hang");
        else
            snprintf(cls, sizeof cls, "crash/signal-%d", sig);
        if (me && !me->cls[0]) record_fail(cls, "the process was killed by a signal");
        if (me) me->status = ST_FAIL;
        _exit(3);
    }

    [[noreturn]] static void child(const Plan & p, const Scenario & s)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!getenv("SIM_STDERR")) {
            int fd = open("/dev/null", O_RDWR);
            if (fd >= 0) {
                dup2(fd, 1);
                dup2(fd, 2);
                if (fd > 2) close(fd);
            }
        }
        struct rlimit rl = { 30, 40 };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rc);
        signal(SIGXCPU, on_signal);
        signal(SIGALRM, on_signal);
        alarm(150);    // (a run that waits for something that never happens)
        signal(SIGABRT, on_signal);
        std::set_terminate([] {
            depth = 0;
            const char * what = "unknown";
            try {
                if (auto e = std::current_exception()) std::rethrow_exception(e);
            } catch (const std::exception & e) {
                what = e.what();
            } catch (...) {
            }
            if (me && !me->cls[0]) record_fail("crash/terminate", what);
            finish(ST_FAIL);
        });
        my_hits = new std::map<std::string, i64>;
        depth = 0;
        try {
            s.run(p);
        } catch (const std::exception & e) {
            depth = 0;
            fail("exception/unexpected", "%s", e.what());
        } catch (...) {
            depth = 0;
            fail("exception/unexpected", "unknown exception");
        }
        depth = 0;
        finish(ST_OK);
    }

    static Result exec_plan(const Plan & p, int slot, bool want_text = false)
    {
        const Scenario & s = find(p.scenario);
        Slot & sl = g->slots[slot];
        sl.status = ST_RUNNING;
        sl.cls[0] = sl.msg[0] = 0;
        sl.step = -1;
        sl.hash = 0x1234;
        sl.done = 0;
        sl.want_text = want_text;
        sl.text_len = 0;
        sl.text[0] = 0;
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            _exit(2);
        }
        if (pid == 0) {
            me = &sl;
            child(p, s);
        }
        int st = 0;
        // a child that neither finishes nor burns CPU is ended after a long real-time wait
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        bool killed = false;
        for (;;) {
            // the common case is a run of a few milliseconds: block in waitpid, with an alarm as backstop
            static thread_local bool armed = false;
            if (!armed) {
                struct sigaction sa = {};
                sa.sa_handler = [](int) {};
                sigaction(SIGALRM, &sa, nullptr);
                armed = true;
            }
            struct itimerval it = { { 20, 0 }, { 20, 0 } };
            setitimer(ITIMER_REAL, &it, nullptr);
            pid_t r = waitpid(pid, &st, 0);
            if (r == pid) break;
            if (r < 0 && errno != EINTR) break;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec > 240 && !killed) {
                kill(pid, SIGKILL);
                killed = true;
            }
        }
        struct itimerval off = {};
        setitimer(ITIMER_REAL, &off, nullptr);
        Result r { sl.status, sl.cls, sl.msg, sl.step, sl.done, sl.hash };
        if (killed) {
            r.status = ST_FAIL;
            r.cls = "liveness/stall";
            r.msg = "the run neither finished nor used its CPU budget";
        } else if (r.status == ST_RUNNING) {
            r.status = ST_FAIL;
            if (WIFSIGNALED(st)) {
                r.cls = "crash/signal-" + std::to_string(WTERMSIG(st));
                r.msg = "the process was killed by a signal";
            } else if (r.cls.empty()) {
                r.cls = "crash/exit-" + std::to_string(WEXITSTATUS(st));
                r.msg = "the process ended before the run did";
            }
        }
        return r;
    }

    // ------------------------------------------------------------------ plans and files
    static u64 run_seed(u64 seed, const std::string & sc, i64 i)
    {
        return mix(hcomb(hcomb(seed, hstr(sc.c_str())), (u64) i));
    }
    static Plan make_plan(const Scenario & s, u64 rs, int tier)
    {
        Plan p;
        p.scenario = s.name;
        p.seed = rs;
        Rng r(rs);
        s.gen(r, p, tier);
        return p;
    }
    static void write_plan(const std::string & path, const Plan & p, const Result & r)
    {
        FILE * f = fopen(path.c_str(), "w");
        if (!f) {
            perror(path.c_str());
            _exit(2);
        }
        fprintf(f, "mito-sim-replay 1\nscenario %s\nseed %" PRIu64 "\n", p.scenario.c_str(), p.seed);
        for (auto & [k, v] : p.cfg) fprintf(f, "cfg %s %" PRId64 "\n", k.c_str(), v);
        fprintf(f, "# op: task kind a b c d fault-kind fault-parameter\n");
        for (auto & o : p.ops)
            fprintf(
                f, "op %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 "\n",
                o.task, o.kind, o.a, o.b, o.c, o.d, o.fk, o.fn);
        fprintf(f, "expect-class %s\nexpect-hash %016" PRIx64 "\nexpect-message %s\n", r.cls.c_str(), r.hash, r.msg.c_str());
        fclose(f);
    }
    static Plan read_plan(const std::string & path, std::string & cls, u64 & hash)
    {
        Plan p;
        FILE * f = fopen(path.c_str(), "r");
        if (!f) {
            perror(path.c_str());
            _exit(2);
        }
        char line[2048];
        while (fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            char key[256];
            i64 v;
            Op o;
            char sc[256];
            if (sscanf(line, "scenario %255s", sc) == 1) p.scenario = sc;
            else if (sscanf(line, "seed %" SCNu64, &p.seed) == 1) {}
            else if (sscanf(line, "cfg %255s %" SCNd64, key, &v) == 2) p.cfg[key] = v;
            else if (sscanf(line, "op %" SCNd64 " %" SCNd64 " %" SCNd64 " %" SCNd64 " %" SCNd64 " %" SCNd64 " %" SCNd64 " %" SCNd64,
                            &o.task, &o.kind, &o.a, &o.b, &o.c, &o.d, &o.fk, &o.fn) == 8)
                p.ops.push_back(o);
            else if (strncmp(line, "expect-class ", 13) == 0) cls = line + 13;
            else if (sscanf(line, "expect-hash %" SCNx64, &hash) == 1) {}
        }
        fclose(f);
        return p;
    }

    // ------------------------------------------------------------------ minimisation
    static Plan minimise(Plan p, const std::string & cls, int slot, double budget, i64 & execs)
    {
        struct timespec t0;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        auto out_of_time = [&] {
            struct timespec t;
            clock_gettime(CLOCK_MONOTONIC, &t);
            return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget;
        };
        auto fails = [&](const Plan & q) {
            ++execs;
            Result r = exec_plan(q, slot);
            return r.status == ST_FAIL && r.cls == cls;
        };
        bool progress = true;
        while (progress && !out_of_time()) {
            progress = false;
            // drop chunks of operations
            for (size_t len = std::max<size_t>(1, p.ops.size() / 2);; len /= 2) {
                for (size_t i = 0; i < p.ops.size() && !out_of_time();) {
                    Plan q = p;
                    size_t e = std::min(q.ops.size(), i + len);
                    q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
                    if (fails(q)) {
                        p = q;
                        progress = true;
                    } else
                        i += len;
                }
                if (len <= 1) break;
            }
            // drop faults, then shrink arguments and tasks
            for (size_t i = 0; i < p.ops.size() && !out_of_time(); ++i) {
                Op & o = p.ops[i];
                auto attempt = [&](i64 Op::* f, i64 v) {
                    if (o.*f == v) return;
                    Plan q = p;
                    q.ops[i].*f = v;
                    if (f == &Op::fk && v == 0) q.ops[i].fn = 0;
                    if (fails(q)) {
                        p.ops[i] = q.ops[i];
                        progress = true;
                    }
                };
                attempt(&Op::fk, 0);
                if (o.fk && o.fn > 1) {
                    attempt(&Op::fn, 1);
                    attempt(&Op::fn, o.fn / 2);
                }
                for (auto f : { &Op::task, &Op::a, &Op::b, &Op::c, &Op::d }) {
                    attempt(f, 0);
                    if (o.*f > 16) attempt(f, (o.*f) % 16);
                    if (o.*f > 1) attempt(f, o.*f / 2);
                    if (o.*f > 1) attempt(f, o.*f - 1);
                }
            }
            // simplify the placement of memory
            for (const char * k : { "mem.mode", "mem.reuse", "mem.seed" }) {
                if (p.get(k) == 0) continue;
                Plan q = p;
                q.cfg[k] = 0;
                if (fails(q)) {
                    p = q;
                    progress = true;
                }
            }
        }
        return p;
    }

    // ------------------------------------------------------------------ command line
    static std::string jesc(const std::string & s)
    {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char) c;
        }
        return o;
    }
    static double now()
    {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }

    int main(int argc, char ** argv)
    {
        // make static addresses repeatable where the sandbox allows it
        if (!getenv("SIM_NOASLR")) {
            setenv("SIM_NOASLR", "1", 1);
            int old = personality(0xffffffff);
            if (old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) >= 0)
                execv("/proc/self/exe", argv);
        }
        std::string scenario, replay, out, save, mode = "batch";
        std::vector<std::string> known;
        u64 seed = 1;
        i64 runs = 1000;
        int workers = 8, tier = 0;
        double maxs = 60, mins = 60;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() -> std::string {
                if (i + 1 >= argc) _exit(2);
                return argv[++i];
            };
            if (a == "--scenario") scenario = val();
            else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--runs") runs = atoll(val().c_str());
            else if (a == "--workers") workers = atoi(val().c_str());
            else if (a == "--tier") tier = val() == "thorough";
            else if (a == "--max-seconds") maxs = atof(val().c_str());
            else if (a == "--min-seconds") mins = atof(val().c_str());
            else if (a == "--out") out = val();
            else if (a == "--save") save = val();
            else if (a == "--focus") focus = val();
            else if (a == "--known") known.push_back(val());
            else if (a == "--replay") { replay = val(); mode = "replay"; }
            else if (a == "--hashes") mode = "hashes";
            else if (a == "--show") mode = "show";
            else if (a == "--list") mode = "list";
            else { fprintf(stderr, "sim: unknown argument %s\n", a.c_str()); return 2; }
        }
        if (mode == "list") {
            for (auto & s : scenarios()) printf("%s\n", s.name);
            return 0;
        }
        workers = std::max(1, std::min(workers, MAXW - 2));
        g = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g == MAP_FAILED) return 2;
        g->first_fail = INT64_MAX;
        mem::reset(0, 0, 0);
        for (auto f : starters()) f();

        if (mode == "replay") {
            std::string cls;
            u64 hash = 0;
            Plan p = read_plan(replay, cls, hash);
            Result r = exec_plan(p, 0, true);
            printf("%s", g->slots[0].text);
            if (r.status == ST_FAIL) {
                printf("RESULT fail class=%s step=%" PRId64 " hash=%016" PRIx64 " message=%s\n", r.cls.c_str(), r.step, r.hash, r.msg.c_str());
                if (r.cls == cls && r.hash == hash) printf("REPRODUCED\n");
                return 1;
            }
            printf("RESULT ok hash=%016" PRIx64 "\n", r.hash);
            return 0;
        }
        const Scenario & s = find(scenario);
        if (mode == "show") {
            Plan p = make_plan(s, run_seed(seed, scenario, runs), tier);
            Result r = exec_plan(p, 0, true);
            printf("run %" PRId64 " seed %" PRIu64 " ops %zu\n%s", runs, p.seed, p.ops.size(), g->slots[0].text);
            printf("RESULT %s class=%s step=%" PRId64 " hash=%016" PRIx64 " message=%s\n", r.status == ST_FAIL ? "fail" : "ok", r.cls.c_str(), r.step, r.hash, r.msg.c_str());
            return r.status == ST_FAIL;
        }
        if (mode == "hashes") {
            // a hash per run, for the determinism self-check (runs are spread over the workers)
            u64 * h = (u64 *) mmap(nullptr, sizeof(u64) * (size_t) runs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::vector<pid_t> ws;
            for (int w = 0; w < workers; ++w) {
                pid_t pid = fork();
                if (pid == 0) {
                    for (i64 i; (i = g->next++) < runs;) {
                        Result r = exec_plan(make_plan(s, run_seed(seed, scenario, i), tier), w);
                        h[i] = hcomb(hcomb(r.hash, (u64) r.status), hcomb((u64) r.step, hstr(r.cls.c_str())));
                    }
                    _exit(0);
                }
                ws.push_back(pid);
            }
            for (auto pid : ws) waitpid(pid, nullptr, 0);
            for (i64 i = 0; i < runs; ++i) printf("%016" PRIx64 "\n", h[i]);
            return 0;
        }

        // ---------------- batch
        g->nknown = 0;
        for (auto & k : known)
            if (g->nknown < 32) strncpy(g->knowncls[g->nknown++], k.c_str(), 159);
        double t0 = now();
        std::vector<pid_t> ws;
        for (int w = 0; w < workers; ++w) {
            pid_t pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                while (!g->stop) {
                    i64 i = g->next++;
                    if (i >= runs || now() - t0 > maxs) break;
                    Plan p = make_plan(s, run_seed(seed, scenario, i), tier);
                    Result r = exec_plan(p, w);
                    ++g->runs;
                    g->ops += (i64) p.ops.size();
                    g->did += r.done;
                    if (set_insert(g->logs, r.hash)) {
                        ++g->nlogs;
                        if (r.done >= 3) ++g->nnontrivial;
                    }
                    u64 ih = 7;
                    for (auto & o : p.ops) ih = hcomb(ih, (u64) (o.task * 1000 + o.kind * 16 + o.fk));
                    if (set_insert(g->inter, ih)) ++g->ninter;
                    if (r.status == ST_FAIL) {
                        bool is_known = false;
                        for (int k = 0; k < g->nknown; ++k)
                            if (r.cls == g->knowncls[k]) {
                                ++g->knownhits[k];
                                is_known = true;
                            }
                        if (is_known) {
                            ++g->known;
                            continue;
                        }
                        if (!in_focus(r.cls)) {
                            if (g->blocked++ == 0) strncpy(g->blockedcls, r.cls.c_str(), 159);
                            continue;
                        }
                        i64 cur = g->first_fail.load();
                        while (i < cur && !g->first_fail.compare_exchange_weak(cur, i)) {}
                        g->stop = 1;
                    }
                }
                _exit(0);
            }
            ws.push_back(pid);
        }
        bool worker_died = false;
        for (auto pid : ws) {
            int st = 0;
            waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) worker_died = true;
        }
        double wall = now() - t0;
        if (worker_died) {
            fprintf(stderr, "sim: a worker died\n");
            return 2;
        }

        std::string js = "{";
        char b[512];
        auto num = [&](const char * k, double v) {
            snprintf(b, sizeof b, "\"%s\": %.17g, ", k, v);
            js += b;
        };
        js += "\"scenario\": \"" + scenario + "\", ";
        num("seed", (double) seed);
        num("runs", (double) g->runs);
        num("ops_planned", (double) g->ops);
        num("ops_executed", (double) g->did);
        num("distinct_event_logs", (double) g->nlogs);
        num("distinct_nontrivial", (double) g->nnontrivial);
        num("distinct_interleavings", (double) g->ninter);
        num("distinct_states", (double) g->nstates);
        num("wall_s", wall);
        num("runs_cut_short", (double) g->blocked);
        js += "\"cut_short_by\": \"" + jesc(g->blockedcls) + "\", ";
        auto table = [&](const char * key, Counter * tab) {
            js += std::string("\"") + key + "\": {";
            bool first = true;
            for (int i = 0; i < MAXC; ++i)
                if (tab[i].used.load() == 2) {
                    snprintf(b, sizeof b, "%s\"%s\": {\"n\": %" PRId64 ", \"runs\": %" PRId64 "}", first ? "" : ", ", tab[i].name, tab[i].n.load(), tab[i].runs.load());
                    js += b;
                    first = false;
                }
            js += "}, ";
        };
        table("faults", g->faults);
        table("probes", g->probes);
        js += "\"known\": {";
        for (int k = 0; k < g->nknown; ++k) {
            snprintf(b, sizeof b, "%s\"%s\": %" PRId64, k ? ", " : "", jesc(g->knowncls[k]).c_str(), g->knownhits[k].load());
            js += b;
        }
        js += "}, ";
        // two runs written out
        js += "\"samples\": [";
        for (int k = 0; k < 2; ++k) {
            Plan p = make_plan(s, run_seed(seed, scenario, k), tier);
            Result r = exec_plan(p, 0, true);
            std::string t(g->slots[0].text, std::min<size_t>(g->slots[0].text_len, 1500));
            js += std::string(k ? ", " : "") + "{\"run\": " + std::to_string(k) + ", \"run_seed\": \"" + std::to_string(p.seed) + "\", \"steps\": " + std::to_string(p.ops.size()) + ", \"event_log_head\": \"" + jesc(t) + "\"}";
        }
        js += "], ";
        int rc = 0;
        i64 ff = g->first_fail.load();
        if (ff != INT64_MAX) {
            Plan p = make_plan(s, run_seed(seed, scenario, ff), tier);
            Result r1 = exec_plan(p, 0), r2 = exec_plan(p, 0);
            bool same = r1.status == ST_FAIL && r2.status == ST_FAIL && r1.cls == r2.cls && r1.hash == r2.hash;
            if (!same) {
                fprintf(stderr, "sim: run %" PRId64 " failed but does not repeat (%s %016" PRIx64 " / %s %016" PRIx64 ")\n", ff, r1.cls.c_str(), r1.hash, r2.cls.c_str(), r2.hash);
                js += "\"violation\": {\"repeatable\": false}}";
                rc = 2;
            } else {
                i64 execs = 0;
                size_t before = p.ops.size();
                Plan q = minimise(p, r1.cls, 0, mins, execs);
                Result m1 = exec_plan(q, 0), m2 = exec_plan(q, 0);
                if (!(m1.status == ST_FAIL && m1.cls == r1.cls && m2.cls == m1.cls && m2.hash == m1.hash)) {
                    q = p;
                    m1 = r1;
                }
                i64 nf = 0;
                for (auto & o : q.ops) nf += o.fk != 0;
                write_plan(save, q, m1);
                js += "\"violation\": {\"repeatable\": true, \"run\": " + std::to_string(ff) + ", \"run_seed\": \"" + std::to_string(p.seed) + "\", \"class\": \"" + jesc(m1.cls) + "\", \"message\": \"" + jesc(m1.msg) + "\", \"steps_before\": " + std::to_string(before) + ", \"steps\": " + std::to_string(q.ops.size()) + ", \"faults\": " + std::to_string(nf) + ", \"minimiser_runs\": " + std::to_string(execs) + "}}";
                rc = 1;
            }
        } else
            js += "\"violation\": null}";
        if (!out.empty()) {
            FILE * f = fopen(out.c_str(), "w");
            if (!f) return 2;
            fputs(js.c_str(), f);
            fputc('\n', f);
            fclose(f);
        } else
            puts(js.c_str());
        return rc;
    }
}    // namespace sim

// ---------------------------------------------------------------------- global seams
void * operator new(size_t n)
{
    void * p = sim::mem::alloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void * operator new[](size_t n)
{
    void * p = sim::mem::alloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void * operator new(size_t n, const std::nothrow_t &) noexcept { return sim::mem::alloc(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::mem::alloc(n); }
void operator delete(void * p) noexcept { sim::mem::dealloc(p); }
void operator delete[](void * p) noexcept { sim::mem::dealloc(p); }
void operator delete(void * p, size_t) noexcept { sim::mem::dealloc(p); }
void operator delete[](void * p, size_t) noexcept { sim::mem::dealloc(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { sim::mem::dealloc(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { sim::mem::dealloc(p); }

extern "C" void __assert_fail(const char * expr, const char * file, unsigned line, const char *) noexcept
{
    sim::depth = 0;
    char cls[160], msg[512];
    const char * base = strrchr(file, '/');
    snprintf(cls, sizeof cls, "assert/%s", expr);
    snprintf(msg, sizeof msg, "assertion `%s' failed at %s:%u", expr, base ? base + 1 : file, line);
    if (sim::me && !sim::me->cls[0]) sim::record_fail(cls, msg);
    if (sim::me) sim::finish(sim::ST_FAIL);
    fprintf(stderr, "%s\n", msg);
    _exit(2);
}
namespace std {
    [[noreturn]] void __glibcxx_assert_fail(const char * file, int line, const char *, const char * cond) noexcept
    {
        ::__assert_fail(cond ? cond : "libstdc++ precondition", file ? file : "?", (unsigned) line, "");
        _exit(2);
    }
}
extern "C" void __asan_on_error()
{
    sim::depth = 0;
    const char * d = __asan_get_report_description ? __asan_get_report_description() : "error";
    char cls[160];
    snprintf(cls, sizeof cls, "memory/%s", d && *d ? d : "error");
    if (sim::me && !sim::me->cls[0]) sim::record_fail(cls, "AddressSanitizer reported an error");
    if (sim::me) {
        sim::me->status = sim::ST_FAIL;
        if (!getenv("SIM_STDERR")) _exit(3);
    }
}

int main(int argc, char ** argv) { return sim::main(argc, argv); }
