// Summit files: clients build meshes, write them to a simulated disk, read them back, over a disk
// that splits transfers, is interrupted, fills up, fails and loses the tail of a file in a crash.
// The oracle is a small independent parser of the format and the multiset of cells written.
#include "../sim/sim.h"

#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/io.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <dlfcn.h>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

using namespace sim;
namespace top = mito::topology;
namespace geo = mito::geometry;
namespace msh = mito::mesh;
namespace smt = mito::io::summit;

// ---------------------------------------------------------------------------- the simulated disk
namespace {
    enum : i64 {
        IO_NONE, IO_SHORT, IO_EINTR, IO_SHORT_EINTR,            // harmless: must not be noticed
        IO_OPEN, IO_CLOSE, IO_EIO_ONCE, IO_EIO_FROM, IO_FULL    // harmful: must be reported
    };
    struct Disk {
        struct Handle {
            FILE * f;
            std::string name;
            size_t pos;
            bool append;
        };
        std::map<std::string, std::string> files;
        std::map<int, Handle> open;
        i64 kind = 0, param = 0, calls = 0, moved = 0, fired = 0;
        int interrupted = 0;
        bool armed = false;
        Rng r;
        std::map<std::string, i64> log;    // what happened in this operation
        void arm(i64 k, i64 n, u64 seed)
        {
            kind = k;
            param = n;
            calls = moved = fired = 0;
            interrupted = 0;
            armed = true;
            r = Rng(seed);
        }
        void disarm() { armed = false, kind = 0; }
        void hit(const char * what)
        {
            ++fired;
            Host h;
            fault(what);
        }
        // the size of the transfer, or -errno
        i64 transfer(size_t n, bool writing)
        {
            ++calls;
            if (!armed) return (i64) n;
            if (kind == IO_EIO_ONCE && calls == param) return hit(writing ? "write-error" : "read-error"), -EIO;
            if (kind == IO_EIO_FROM && calls >= param) return hit(writing ? "write-error-persistent" : "read-error-persistent"), -EIO;
            if (kind == IO_FULL && writing) {
                if (moved + (i64) n > param) {
                    n = (size_t) std::max<i64>(0, param - moved);
                    if (!n) return hit("disk-full"), -ENOSPC;
                }
            }
            if ((kind == IO_EINTR || kind == IO_SHORT_EINTR) && interrupted < 3 && r.chance(0.4)) return ++interrupted, hit("interrupted-call"), -EINTR;
            interrupted = 0;
            if ((kind == IO_SHORT || kind == IO_SHORT_EINTR) && n > 1 && r.chance(0.6)) {
                n = (size_t) (r.chance(0.3) ? 1 : r.range(1, (i64) n));
                hit("short-transfer");
            }
            moved += (i64) n;
            return (i64) n;
        }
    };
    Disk & disk()
    {
        static Disk * d = new Disk;
        return *d;
    }
    const char ROOT[] = "/simulated-disk/";
    bool ours(const char * path) { return !strncmp(path, ROOT, sizeof ROOT - 1); }
    template <class F>
    F real(const char * name) { return (F) dlsym(RTLD_NEXT, name); }
    bool live = false;    // set once a run has started
}

extern "C" {
FILE * fopen(const char * path, const char * mode)
{
    static auto next = real<FILE * (*) (const char *, const char *)>("fopen");
    if (!live || !ours(path)) return next(path, mode);
    Host h;
    Disk & d = disk();
    bool reading = mode[0] == 'r';
    if (d.armed && d.kind == IO_OPEN) {
        d.hit("open-failure");
        errno = d.param % 3 == 0 ? EACCES : d.param % 3 == 1 ? EMFILE : EIO;
        return nullptr;
    }
    if (reading && !d.files.count(path)) {
        errno = ENOENT;
        return nullptr;
    }
    if (mode[0] == 'w') d.files[path].clear();
    if (mode[0] == 'a') d.files[path];
    FILE * f = next("/dev/null", mode);
    if (!f) return nullptr;
    d.open[fileno(f)] = { f, path, mode[0] == 'a' ? d.files[path].size() : 0, mode[0] == 'a' };
    return f;
}
FILE * fopen64(const char * path, const char * mode) { return fopen(path, mode); }
int fclose(FILE * f)
{
    static auto next = real<int (*)(FILE *)>("fclose");
    if (!live) return next(f);
    Host h;
    Disk & d = disk();
    auto it = d.open.find(fileno(f));
    if (it == d.open.end()) return next(f);
    std::string name = it->second.name;
    d.open.erase(it);
    next(f);
    if (d.armed && d.kind == IO_CLOSE) {
        // what the system had not yet put away is lost, and only now it says so
        d.hit("close-failure");
        auto & data = d.files[name];
        data.resize(data.size() - std::min(data.size(), (size_t) d.param));
        errno = ENOSPC;
        return EOF;
    }
    return 0;
}
ssize_t read(int fd, void * buf, size_t n)
{
    if (live) {
        Host h;
        Disk & d = disk();
        if (auto it = d.open.find(fd); it != d.open.end()) {
            auto & data = d.files[it->second.name];
            size_t left = data.size() - std::min(data.size(), it->second.pos);
            i64 m = d.transfer(std::min(n, left), false);
            if (m < 0) return errno = (int) -m, -1;
            memcpy(buf, data.data() + it->second.pos, (size_t) m);
            it->second.pos += (size_t) m;
            return m;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
static ssize_t put(Disk & d, Disk::Handle & h, const char * buf, size_t n)
{
    i64 m = d.transfer(n, true);
    if (m < 0) return errno = (int) -m, -1;
    auto & data = d.files[h.name];
    if (h.append) h.pos = data.size();
    if (data.size() < h.pos + (size_t) m) data.resize(h.pos + (size_t) m);
    memcpy(data.data() + h.pos, buf, (size_t) m);
    h.pos += (size_t) m;
    return m;
}
ssize_t write(int fd, const void * buf, size_t n)
{
    if (live) {
        Host h;
        Disk & d = disk();
        if (auto it = d.open.find(fd); it != d.open.end()) return put(d, it->second, (const char *) buf, n);
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec * v, int c)
{
    if (live) {
        Host h;
        Disk & d = disk();
        if (auto it = d.open.find(fd); it != d.open.end()) {
            std::string all;
            for (int i = 0; i < c; ++i) all.append((const char *) v[i].iov_base, v[i].iov_len);
            return put(d, it->second, all.data(), all.size());
        }
    }
    return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t off, int whence) noexcept
{
    if (live) {
        Host h;
        Disk & d = disk();
        if (auto it = d.open.find(fd); it != d.open.end()) {
            auto & H = it->second;
            i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64) H.pos : (i64) d.files[H.name].size();
            if (base + off < 0) return errno = EINVAL, -1;
            H.pos = (size_t) (base + off);
            return (off_t) H.pos;
        }
    }
    return (off_t) syscall(SYS_lseek, fd, off, whence);
}
off_t lseek64(int fd, off_t off, int whence) noexcept { return lseek(fd, off, whence); }
int rename(const char * a, const char * b) noexcept
{
    static auto next = real<int (*)(const char *, const char *)>("rename");
    if (!live || !ours(a)) return next(a, b);
    Host h;
    Disk & d = disk();
    if (!d.files.count(a)) return errno = ENOENT, -1;
    d.files[b] = d.files[a];
    d.files.erase(a);
    return 0;
}
int unlink(const char * a) noexcept
{
    static auto next = real<int (*)(const char *)>("unlink");
    if (!live || !ours(a)) return next(a);
    Host h;
    return disk().files.erase(a) ? 0 : (errno = ENOENT, -1);
}
int remove(const char * a) noexcept
{
    static auto next = real<int (*)(const char *)>("remove");
    if (!live || !ours(a)) return next(a);
    return unlink(a);
}
}

// ---------------------------------------------------------------------------- the scenario
namespace {
    int parity(const std::vector<int> & a, const std::vector<int> & b)
    {
        std::vector<int> p;
        for (int x : a) p.push_back((int) (std::find(b.begin(), b.end(), x) - b.begin()));
        int s = 1;
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t j = i + 1; j < p.size(); ++j)
                if (p[i] > p[j]) s = -s;
        return s;
    }
    std::vector<int> sorted(std::vector<int> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    }
    using key_t = std::pair<std::vector<int>, int>;    // vertices and orientation
    key_t key_of(const std::vector<int> & v) { return { sorted(v), parity(v, sorted(v)) }; }
    key_t opposite(key_t k) { return k.second = -k.second, k; }
    std::vector<key_t> facets(const std::vector<int> & v)
    {
        static const int eps[4] = { 0, +1, +1, -1 };
        std::vector<key_t> out;
        for (size_t i = 0; i < v.size(); ++i) {
            auto w = v;
            w.erase(w.begin() + (long) i);
            key_t k = key_of(w);
            k.second *= (i % 2 ? -1 : 1) * eps[v.size() - 1];
            out.push_back(k);
        }
        return out;
    }

    // the contents of a file: what a reader must make of it
    struct Contents {
        bool valid = false;
        std::string why;
        std::vector<std::vector<double>> x;
        std::vector<std::vector<int>> cells;    // indices from zero
    };
    Contents parse(const std::string & text, int N, int D)
    {
        Contents c;
        auto bad = [&](const char * w) { return c.why = w, c; };
        std::istringstream in(text);
        long dim, nv, nc, nt;
        int i;
        if (!(in >> i)) return bad("no dimension");
        dim = i;
        if (dim != D) return bad("another dimension");
        if (!(in >> i)) return bad("no number of vertices");
        nv = i;
        if (!(in >> i)) return bad("no number of cells");
        nc = i;
        if (!(in >> i)) return bad("no number of cell types");
        nt = i;
        if (nv < 0 || nc < 0) return bad("a negative count");
        if (nt != 1) return bad("another number of cell types");
        for (long n = 0; n < nv; ++n) {
            std::vector<double> x((size_t) D);
            for (auto & v : x)
                if (!(in >> v)) return bad("a coordinate is missing");
            c.x.push_back(x);
        }
        for (long n = 0; n < nc; ++n) {
            if (!(in >> i)) return bad("a cell is missing");
            if (i != N + 1) return bad("another type of cell");
            std::vector<int> v((size_t) N + 1);
            for (auto & k : v) {
                if (!(in >> k)) return bad("a node is missing");
                if (k < 1 || k > nv) return bad("a node is out of range");
                --k;
            }
            std::set<int> s(v.begin(), v.end());
            if (s.size() != v.size()) return bad("a node is repeated");
            std::string label;
            if (!(in >> label)) return bad("a label is missing");
            std::getline(in, label);
            c.cells.push_back(v);
        }
        c.valid = true;
        return c;
    }
    bool close_to(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }

    enum { K_INSERT, K_NEAR, K_ERASE, K_WRITE, K_READ, K_HAND, K_DAMAGE, K_CRASH, K_CLEAR, K_NOISE, K_MISSING };
    enum { MODE_CLEAN, MODE_READ, MODE_WRITE };

    void gen_any(Rng & r, Plan & p, int tier, int mode)
    {
        plan_memory(r, p);
        p.cfg["kind"] = r.below(8);
        p.cfg["mode"] = mode;
        p.cfg["nodes"] = r.range(4, 14);
        p.cfg["values"] = r.below(4);
        p.cfg["shared"] = r.below(2);
        p.cfg["bulk"] = r.chance(0.3) ? r.range(20, 200) : 0;    // files longer than a stream buffer
        i64 n = r.range(5, tier ? 80 : 30);
        Swarm sw(r, { { K_INSERT, 5 }, { K_NEAR, 3 }, { K_ERASE, 1.5 }, { K_WRITE, 5 }, { K_READ, 5 }, { K_HAND, 1.5 }, { K_DAMAGE, mode == MODE_READ ? 5. : 0. }, { K_CRASH, mode == MODE_WRITE ? 1. : 0. }, { K_CLEAR, 0.4 }, { K_NOISE, 1 }, { K_MISSING, 0.3 } }, { K_INSERT, K_WRITE, K_READ });
        Scheduler sc(r, 3);
        double rate = r.pick({ 20, 50, 80 }) / 100.0;
        i64 span = r.pick({ 4, 20, 80, 400 });
        for (i64 i = 0; i < n; ++i) {
            Op o { sc.next(r), i == 0 ? (i64) K_INSERT : sw.pick(r), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16), r.below(1 << 16) };
            if ((o.kind == K_READ || o.kind == K_WRITE) && r.chance(rate)) {
                o.fk = F_IO;
                if (mode == MODE_CLEAN)
                    o.fn = r.pick({ IO_SHORT, IO_EINTR, IO_SHORT_EINTR });
                else if (mode == MODE_READ && o.kind == K_READ) {
                    if (r.chance(0.2)) {
                        o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                        o.fn = r.range(1, span);
                    } else
                        o.fn = r.pick({ IO_OPEN, IO_EIO_ONCE, IO_EIO_FROM, IO_EIO_ONCE, IO_EIO_FROM, IO_SHORT }) + 16 * r.range(1, r.pick({ 2, 4, 8 }));
                } else if (mode == MODE_WRITE && o.kind == K_WRITE) {
                    if (r.chance(0.15)) {
                        o.fk = r.pick({ F_ALLOC_ONE, F_ALLOC_FROM });
                        o.fn = r.range(1, span);
                    } else {
                        i64 k = r.pick({ IO_OPEN, IO_CLOSE, IO_EIO_ONCE, IO_EIO_FROM, IO_FULL, IO_FULL });
                        o.fn = k + 16 * (k == IO_FULL ? r.below(r.pick({ 20, 200, 2000 })) : k == IO_CLOSE ? r.pick({ 0, 1, 7, 512 }) : r.range(1, r.pick({ 3, 12, 60 })));
                    }
                } else
                    o.fn = IO_SHORT_EINTR;
            }
            p.ops.push_back(o);
        }
    }
    void gen_io(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, MODE_CLEAN); }
    void gen_io_read(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, MODE_READ); }
    void gen_io_write(Rng & r, Plan & p, int tier) { gen_any(r, p, tier, MODE_WRITE); }

    template <int N, int D, geo::CoordinateType TYPE>
    void run(const Plan & p)
    {
        start_memory(p);
        live = true;
        using cell_t = geo::geometric_simplex_t<N, D>;
        using mesh_type = msh::mesh_t<cell_t>;
        using node_t = geo::node_t<D>;
        using coord_t = geo::coordinates_t<D, TYPE>;
        using system_t = geo::coordinate_system_t<coord_t>;
        const i64 MODE = p.get("mode");
        const int NV = (int) std::max<i64>(N + 1, p.get("nodes", 4)) + (int) p.get("bulk");
        const int FILES = 3;
        Disk & dk = disk();

        struct Mesh {
            std::unique_ptr<mesh_type> m;
            std::shared_ptr<system_t> cs;
            std::vector<std::vector<double>> x;          // the points it may name
            std::vector<std::vector<int>> cells;         // as indices into x
            std::vector<cell_t *> at;
            bool dg = false;                             // every cell has nodes of its own
        };
        struct File {
            bool known = false;      // written in full by a write that returned normally, and not damaged since
            Contents c;
        };
        std::array<Mesh, 4> M;
        std::array<File, FILES> F;
        std::shared_ptr<system_t> base;
        std::vector<node_t> nodes;
        std::vector<std::vector<double>> xyz;
        std::map<const void *, int> pid;
        Rng world((u64) p.seed ^ 0x99);
        auto value = [&](int i, int d) -> double {
            switch (p.get("values")) {
            case 0: return (double) (d == 0 ? i : world.range(-8, 8));
            case 1: return (i + 1) * 1e-3 + world.unit();
            case 2: return (world.chance(0.5) ? -1 : 1) * std::ldexp(world.unit() + 0.5, (int) world.range(-80, 80));
            default: return d == 0 ? -i / 3. : world.chance(0.2) ? -0.0 : world.chance(0.3) ? 1e300 * world.unit() : world.chance(0.3) ? 1e-305 * world.unit() : world.unit();
            }
        };
        auto path = [&](int f) { return std::string(ROOT) + "f" + std::to_string(f); };
        auto fresh = [&] {
            Sut in;
            return std::shared_ptr<system_t>(new system_t());
        };
        base = fresh();
        for (int i = 0; i < NV; ++i) {
            std::vector<double> x;
            for (int d = 0; d < D; ++d) x.push_back(value(i, d));
            bool dup = false;
            for (auto & y : xyz) {
                bool same = true;
                for (int d = 0; d < D; ++d) same = same && close_to(x[(size_t) d], y[(size_t) d]);
                dup = dup || same;
            }
            if (dup) x[0] = 1e4 + i;
            xyz.push_back(x);
            Sut in;
            mito::tensor::vector_t<D> t;
            for (int d = 0; d < D; ++d) t[d] = x[(size_t) d];
            nodes.push_back(geo::node(*base, coord_t(t)));
            Host h;
            pid[nodes.back()->point().operator->()] = i;
        }
        for (auto & m : M) {
            m.cs = base;
            m.x = xyz;
            Sut in;
            m.m.reset(new mesh_type());
        }
        auto base_intact = [&](const char * what) {
            for (int i = 0; i < NV; ++i) {
                std::vector<double> g;
                {
                    Sut in;
                    auto & c = base->coordinates(nodes[(size_t) i]->point());
                    Host h;
                    for (int d = 0; d < D; ++d) g.push_back(c[d]);
                }
                for (int d = 0; d < D; ++d)
                    if (g[(size_t) d] != xyz[(size_t) i][(size_t) d]) fail("I01,I02,G01/coordinates", "after %s: a point moved", what);
            }
        };
        // the number of a point of a mesh, by its coordinates
        auto find = [&](const Mesh & m, const std::vector<double> & x) {
            int hit = -1;
            for (int i = 0; i < (int) m.x.size(); ++i) {
                bool same = true;
                for (int d = 0; d < D; ++d) same = same && close_to(x[(size_t) d], m.x[(size_t) i][(size_t) d]);
                if (same) return i;
            }
            return hit;
        };
        // the cells of a mesh against its model
        auto verify = [&](Mesh & m, const char * cls, const char * what) {
            if (m.m->nCells() != (int) m.cells.size()) fail(cls, "%s: %d cells instead of %zu", what, m.m->nCells(), m.cells.size());
            std::multiset<key_t> want, got;
            for (auto & c : m.cells) want.insert(key_of(c));
            std::map<int, const void *> vertex, point, node;
            std::map<const void *, int> back;
            std::set<const void *> all_nodes;
            m.at.clear();
            for (auto & c : std::as_const(*m.m).cells()) {
                m.at.push_back(const_cast<cell_t *>(&c));
                std::vector<int> v, w;
                for (auto & n : c.nodes()) {
                    std::vector<double> x;
                    {
                        Sut in;
                        auto & q = m.cs->coordinates(n->point());
                        Host h;
                        for (int d = 0; d < D; ++d) x.push_back(q[d]);
                    }
                    int i = find(m, x);
                    if (i < 0) fail(cls, "%s: a cell has a point that is not there", what);
                    v.push_back(i);
                    const void *pv = n->vertex().operator->(), *pp = n->point().operator->(), *pn = n.operator->();
                    if (vertex.emplace(i, pv).first->second != pv) fail(cls, "%s: cells that share a point do not share its vertex", what);
                    if (point.emplace(i, pp).first->second != pp) fail(cls, "%s: a point is there twice", what);
                    if (!m.dg && node.emplace(i, pn).first->second != pn) fail(cls, "%s: cells that share a point do not share its node", what);
                    if (back.emplace(pv, i).first->second != i) fail(cls, "%s: a vertex sits at two points", what);
                    all_nodes.insert(pn);
                }
                for (auto & x : c.simplex()->vertices()) {
                    auto it = back.find(x.operator->());
                    if (it == back.end()) fail(cls, "%s: a cell's simplex has another vertex", what);
                    w.push_back(it->second);
                }
                if (sorted(v) != sorted(w) || parity(v, w) != 1) fail(cls, "%s: a cell's nodes and its simplex disagree", what);
                got.insert(key_of(v));
            }
            if (got != want) fail(cls, "%s: the cells are not those of the mesh", what);
            if (m.dg && all_nodes.size() != m.cells.size() * (N + 1)) fail(cls, "%s: %zu nodes in a discontinuous mesh of %zu cells", what, all_nodes.size(), m.cells.size());
            // the boundary
            std::vector<key_t> f;
            for (auto & c : m.cells)
                for (auto & k : facets(c)) f.push_back(k);
            std::set<key_t> have(f.begin(), f.end());
            size_t nb = 0;
            for (auto & k : f) nb += !have.count(opposite(k));
            int b;
            {
                Sut in;
                b = msh::boundary_size(*m.m);
            }
            if (b != (int) nb) fail(cls, "%s: the boundary has %d facets instead of %zu", what, b, nb);
            state(hcomb(hcomb((u64) N * 8 + D, m.cells.size()), nb));
        };
        // what is on the disk against the mesh that was written
        auto on_disk = [&](const Mesh & m, int f, const char * cls) {
            Contents c = parse(dk.files[path(f) + ".summit"], N, D);
            if (!c.valid) fail(cls, "the file of a mesh that was written is damaged: %s", c.why.c_str());
            std::set<int> used;
            for (auto & v : m.cells) used.insert(v.begin(), v.end());
            if (c.x.size() != used.size()) fail(cls, "a mesh of %zu points is written with %zu", used.size(), c.x.size());
            std::vector<int> id;
            std::set<int> seen;
            for (auto & x : c.x) {
                int i = find(m, x);
                if (i < 0 || !used.count(i)) fail(cls, "a point of the file is not one of the mesh");
                if (!seen.insert(i).second) fail(cls, "a point is written twice");
                id.push_back(i);
            }
            std::multiset<key_t> want, got;
            for (auto & v : m.cells) want.insert(key_of(v));
            for (auto & v : c.cells) {
                std::vector<int> w;
                for (int k : v) w.push_back(id[(size_t) k]);
                got.insert(key_of(w));
            }
            if (want != got) fail(cls, "the cells of the file are not those of the mesh");
            return c;
        };
        auto add = [&](Mesh & m, const std::vector<int> & v) {
            Sut in;
            // the nodes of a mesh that was read are those of its cells
            std::vector<node_t> ns;
            for (int i : v) {
                bool done = false;
                if (m.cs == base && m.x == xyz) ns.push_back(nodes[(size_t) i]), done = true;
                if (!done) return false;
            }
            [&]<size_t... K>(std::index_sequence<K...>) { m.m->insert({ ns[K]... }); }(std::make_index_sequence<N + 1> {});
            Host h;
            m.cells.push_back(v);
            return true;
        };
        auto choose = [&](u64 seed, int n, size_t k) {
            Rng r(seed);
            std::vector<int> from((size_t) n);
            std::iota(from.begin(), from.end(), 0);
            for (size_t i = 0; i < k; ++i) std::swap(from[i], from[i + (size_t) r.below((i64) (from.size() - i))]);
            from.resize(k);
            return from;
        };
        auto reset = [&](Mesh & m) {
            m.cells.clear();
            m.at.clear();
            m.dg = false;
            m.x = xyz;
            Sut in;
            m.m.reset(new mesh_type());
            m.cs = base;
        };
        if (i64 bulk = p.get("bulk"))
            for (i64 i = 0; i < bulk; ++i) {
                auto v = choose((u64) (p.seed + (u64) i), NV, N + 1);
                add(M[0], v);
            }

        i64 step = 0;
        for (auto & op : p.ops) {
            at(step++);
            int mi = (int) (op.task % 4), f = (int) (op.b % FILES);
            Mesh & m = M[(size_t) mi];
            std::string name = path(f) + ".summit";
            switch (op.kind) {
            case K_INSERT:
                for (i64 i = 0; i <= op.c % 4; ++i) add(m, choose((u64) (op.a + i), NV, N + 1));
                did();
                break;
            case K_NEAR: {
                if (m.cells.empty()) break;
                auto v = m.cells[(size_t) (op.a % (i64) m.cells.size())];
                int x = (int) (op.c % NV);
                if (std::find(v.begin(), v.end(), x) != v.end()) break;
                v[(size_t) (op.d % (N + 1))] = x;
                std::swap(v[0], v[1]);
                add(m, v);
                did();
                break;
            }
            case K_ERASE: {
                if (m.cells.empty()) break;
                verify(m, "I01/mesh", "before an erasure");
                auto & c = *m.at[(size_t) (op.a % (i64) m.at.size())];
                std::vector<int> v;
                for (auto & n : c.nodes()) {
                    std::vector<double> x;
                    auto & q = m.cs->coordinates(n->point());
                    for (int d = 0; d < D; ++d) x.push_back(q[d]);
                    v.push_back(find(m, x));
                }
                for (size_t i = 0; i < m.cells.size(); ++i)
                    if (key_of(m.cells[i]) == key_of(v)) {
                        m.cells.erase(m.cells.begin() + (long) i);
                        break;
                    }
                {
                    Sut in;
                    m.m->erase(c);
                }
                did();
                break;
            }
            case K_WRITE: {
                static const char * element[] = { "", "", "", "T3", "linear tet" };
                std::string type = element[op.c % 5];
                dk.arm(op.fk == F_IO ? op.fn % 16 : 0, op.fn / 16, (u64) op.d);
                std::string target = path(f);
                Outcome o = act(op, [&] { smt::writer(target, *m.m, *m.cs, type); });
                i64 fired = dk.fired + o.fired;
                dk.disarm();
                log("write %d to %d: %s, %zu bytes", mi, f, o.ok ? "ok" : "error", dk.files[name].size());
                bool harmful = op.fk != F_IO || op.fn % 16 > IO_SHORT_EINTR;
                F[(size_t) f] = {};
                if (o.ok) {
                    F[(size_t) f].c = on_disk(m, f, MODE == MODE_WRITE ? "I03,I01/lost-write" : "I01/written");
                    F[(size_t) f].known = true;
                } else {
                    if (!fired || !harmful) fail(MODE == MODE_WRITE ? "I03,I01/refused" : "I01/refused", "writing a mesh threw: %s", o.what.c_str());
                    probe("write-error-reported");
                    // whatever was left behind, the mesh is fine and can be written again
                    verify(m, "I03/mesh", "after a failed write");
                    if (op.a % 2) {
                        Outcome again = act(Op {}, [&] { smt::writer(target, *m.m, *m.cs, type); });
                        if (!again.ok) fail("I03/not-usable", "writing again fails after the fault is over: %s", again.what.c_str());
                        F[(size_t) f].c = on_disk(m, f, "I03/lost-write");
                        F[(size_t) f].known = true;
                    }
                }
                if (!dk.open.empty()) fail("I01,I03/open-files", "a file is still open after the write");
                break;
            }
            case K_HAND: {
                // a file as another program might have written it
                Rng r((u64) op.a);
                int nv = (int) r.range(N + 1, 9), nc = (int) r.range(0, 8);
                std::string t;
                auto ws = [&] { t += r.chance(0.8) ? " " : r.chance(0.5) ? "\t" : "   "; };
                auto nl = [&] { t += r.chance(0.9) ? "\n" : r.chance(0.5) ? " \n" : "\n\n"; };
                t += std::to_string(D);
                nl();
                t += std::to_string(nv), ws(), t += std::to_string(nc), ws(), t += "1";
                nl();
                char b[64];
                static const char * fmt[] = { "%.1f", "%g", "%.17g", "%+.3e", "%.0f" };
                const char * how = fmt[r.below(5)];
                for (int i = 0; i < nv; ++i) {
                    for (int d = 0; d < D; ++d) {
                        snprintf(b, sizeof b, how, d == 0 ? i * 1.5 + r.below(2) * 0.25 : (double) r.range(-50, 50) / 8);
                        t += b;
                        ws();
                    }
                    nl();
                }
                for (int i = 0; i < nc; ++i) {
                    t += std::to_string(N + 1);
                    for (int v : choose((u64) r.next(), nv, N + 1)) ws(), t += std::to_string(v + 1);
                    ws(), t += r.chance(0.8) ? "1" : r.chance(0.5) ? "12" : "left";
                    if (r.chance(0.1)) t += " 4 5";
                    nl();
                }
                if (r.chance(0.5)) t += "    " + std::to_string(nc) + " 5 3\n";
                dk.files[name] = t;
                Contents c = parse(t, N, D);
                if (!c.valid) fail("harness/hand", "the harness wrote a damaged file: %s", c.why.c_str());
                F[(size_t) f] = { true, c };
                break;
            }
            case K_DAMAGE: {
                if (!dk.files.count(name)) break;
                Rng r((u64) op.a * 77 + (u64) op.c);
                std::string & t = dk.files[name];
                if (t.empty()) break;
                switch (op.d % 7) {
                case 0: t.resize((size_t) r.below((i64) t.size())); fault("torn-file"); break;
                case 1: t[(size_t) r.below((i64) t.size())] = "0123456789-.eE x\n\0"[r.below(18)]; fault("flipped-byte"); break;
                case 2:
                case 6: {    // another token
                    std::vector<std::pair<size_t, size_t>> tok;
                    for (size_t i = 0; i < t.size();) {
                        while (i < t.size() && isspace((unsigned char) t[i])) ++i;
                        size_t b = i;
                        while (i < t.size() && !isspace((unsigned char) t[i])) ++i;
                        if (i > b) tok.push_back({ b, i - b });
                    }
                    if (tok.empty()) break;
                    auto [b, n] = r.chance(0.3) ? tok[(size_t) r.below(std::min<i64>(5, (i64) tok.size()))] : tok[(size_t) r.below((i64) tok.size())];
                    static const char * subst[] = { "0", "-1", "1", "2", "3", "4", "5", "999", "2147483647", "2147483648", "99999999999999999999", "nan", "abc", "", "1.5", "-7", "3000000", "1e400" };
                    t.replace(b, n, subst[r.below(18)]);
                    fault("damaged-entry");
                    break;
                }
                case 3: {    // a line is lost or doubled
                    size_t at = (size_t) r.below((i64) t.size()), b = t.rfind('\n', at), e = t.find('\n', at);
                    b = b == std::string::npos ? 0 : b + 1;
                    if (e == std::string::npos || e < b) break;
                    if (r.chance(0.5)) t.erase(b, e + 1 - b), fault("lost-line");
                    else t.insert(b, t.substr(b, e + 1 - b)), fault("doubled-line");
                    break;
                }
                case 4: {    // a block of zeros, as after a crash
                    size_t at = (size_t) r.below((i64) t.size());
                    for (size_t i = at; i < t.size() && i < at + 64; ++i) t[i] = '\0';
                    fault("zeroed-block");
                    break;
                }
                case 5: {    // two blocks change places
                    size_t a = (size_t) r.below((i64) t.size()), n = (size_t) r.range(1, 32), b = (size_t) r.below((i64) t.size());
                    if (a + n <= b && b + n <= t.size()) {
                        std::swap_ranges(t.begin() + (long) a, t.begin() + (long) (a + n), t.begin() + (long) b);
                        fault("swapped-blocks");
                    }
                    break;
                }
                }
                F[(size_t) f].known = false;
                break;
            }
            case K_CRASH: {
                // the machine goes down: only a prefix of what was written last survives
                if (!dk.files.count(name)) break;
                std::string & t = dk.files[name];
                t.resize((size_t) (op.a % (i64) (t.size() + 1)));
                fault("crash-torn-file");
                F[(size_t) f].known = false;
                break;
            }
            case K_READ: {
                if (!dk.files.count(name) && MODE == MODE_CLEAN) break;
                Mesh & to = M[(size_t) ((op.a >> 3) % 4)];
                bool shared = p.get("shared") && op.c % 2, dg = (op.c >> 2) % 4 == 0;
                Contents c = dk.files.count(name) ? parse(dk.files[name], N, D) : Contents {};
                auto cs = shared ? base : fresh();
                std::unique_ptr<mesh_type> got;
                dk.arm(op.fk == F_IO ? op.fn % 16 : 0, op.fn / 16, (u64) op.d);
                Outcome o = act(op, [&] {
                    std::ifstream in(name);
                    if (dg)
                        got.reset(new mesh_type(smt::reader<cell_t, smt::DG>(in, *cs)));
                    else
                        got.reset(new mesh_type(smt::reader<cell_t>(in, *cs)));
                });
                i64 fired = dk.fired + o.fired;
                dk.disarm();
                bool harmful = op.fk && fired && (op.fk != F_IO || op.fn % 16 > IO_SHORT_EINTR);
                log("read %d: %s (file %s, fault %s)", f, o.ok ? "ok" : "error", c.valid ? "intact" : c.why.c_str(), harmful ? "yes" : "no");
                if (!o.ok) {
                    probe("read-error-reported");
                    if (c.valid && !harmful) fail(MODE == MODE_READ ? "I02,I01/refused" : "I01/refused", "reading an intact file threw: %s", o.what.c_str());
                } else {
                    if (!c.valid) fail("I02,I01/damaged-accepted", "a damaged file was read without an error: %s", c.why.c_str());
                    to.m = std::move(got);
                    to.cs = cs;
                    to.dg = dg;
                    to.x = c.x;
                    to.cells = c.cells;
                    // points that coincide cannot be told apart
                    bool distinct = true;
                    for (size_t i = 0; i < c.x.size(); ++i) distinct = distinct && find(to, c.x[i]) == (int) i;
                    if (distinct)
                        verify(to, MODE == MODE_READ ? (harmful ? "I02/invented" : "I02,I01/read") : "I01/read", "a mesh read from a file");
                    else if (to.m->nCells() != (int) c.cells.size())
                        fail("I01,I02/read", "a mesh read from a file has %d cells instead of %zu", to.m->nCells(), c.cells.size());
                    if (!distinct) reset(to);
                    probe("read");
                }
                if (!dk.open.empty()) fail("I01,I02/open-files", "a file is still open after the read");
                base_intact("reading a file");
                break;
            }
            case K_MISSING: {
                bool threw = false;
                Sut in;
                system_t cs;
                std::ifstream s(std::string(ROOT) + "nothing");
                try {
                    (void) smt::reader<cell_t>(s, cs);
                } catch (const std::exception &) {
                    threw = true;
                }
                Host h;
                if (!threw) fail("I02/missing-file", "a file that is not there was read");
                did();
                break;
            }
            case K_CLEAR: reset(m); break;
            case K_NOISE: {
                Sut in;
                auto cs = new system_t();
                for (int i = 0; i <= op.a % 20; ++i) {
                    mito::tensor::vector_t<D> t;
                    for (int d = 0; d < D; ++d) t[d] = i;
                    (void) geo::node(*cs, coord_t(t));
                }
                if (op.b % 2) delete cs;
                break;
            }
            }
            log("%lld %d: %zu cells", (long long) op.kind, mi, m.cells.size());
        }
        for (auto & m : M) verify(m, "I01/mesh", "at the end");
        {
            Sut in;
            for (auto & m : M) m.m.reset();
        }
    }
    void run_any(const Plan & p)
    {
        switch (p.get("kind")) {
        case 0: return run<1, 1, geo::CARTESIAN>(p);
        case 1: return run<1, 2, geo::CARTESIAN>(p);
        case 2: return run<1, 3, geo::CARTESIAN>(p);
        case 3: return run<2, 2, geo::CARTESIAN>(p);
        case 4: return run<2, 3, geo::CARTESIAN>(p);
        case 5: return run<3, 3, geo::CARTESIAN>(p);
        case 6: return run<2, 2, geo::POLAR>(p);
        default: return run<3, 3, geo::SPHERICAL>(p);
        }
    }
    Registrar r1("io", gen_io, run_any);
    Registrar r2("io_read_faults", gen_io_read, run_any);
    Registrar r3("io_write_faults", gen_io_write, run_any);
}

