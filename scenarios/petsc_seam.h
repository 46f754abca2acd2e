// The seam to the external linear algebra library: every call mito makes to PETSc passes through
// here (the harness is linked with -Wl,--wrap=...), where it can be made to fail, objects are
// counted, and the system about to be solved can be looked at.
#pragma once
#include "../sim/sim.h"
#include <petscksp.h>
#include <set>
#include <string>
#include <vector>

namespace seam {
    using sim::i64;
    enum : i64 { PF_NONE, PF_ONCE, PF_FROM, PF_DIVERGE };    // fault kinds (op.fn = kind + 8 * n)

    struct State {
        bool inside = false;    // a call of mito is going on
        i64 kind = 0, n = 0, calls = 0, fired = 0;
        std::map<void *, const char *> live;    // created by mito and not destroyed yet
        std::set<void *> dead;                  // destroyed
        i64 created = 0, destroyed = 0;
        // the last system handed to the solver
        int solves = 0;
        PetscInt size = -1;
        std::vector<double> A, b, x;
        double rtol = -1, atol = -1, dtol = -1;
        PetscInt maxit = -1;
        int restart = -1;
        bool modified = false;    // the orthogonalization of gmres
        std::string ksp_type, pc_type;
        std::set<void *> pending;    // vectors with values not assembled yet
        bool tag = false;            // do not solve: hand back the numbers of the equations
    };
    inline State & st()
    {
        static State * s = new State;
        return *s;
    }
    struct Arm {
        Arm(const sim::Op & op)
        {
            auto & s = st();
            s.inside = true;
            s.kind = op.fk == sim::F_IO ? op.fn % 8 : 0;
            s.n = op.fn / 8;
            s.calls = s.fired = 0;
        }
        ~Arm() { st().inside = false, st().kind = 0; }
    };
    // should this call fail? (a persistent failure does not keep objects from being released)
    inline bool fails(const char * name, bool release = false)
    {
        auto & s = st();
        if (!s.inside) return false;
        ++s.calls;
        if ((s.kind == PF_ONCE && s.calls == s.n) || (s.kind == PF_FROM && s.calls >= s.n && !release)) {
            sim::Host h;
            ++s.fired;
            sim::fault(s.kind == PF_ONCE ? "library-call-failure" : "library-failure-persistent");
            sim::log("%s fails", name);
            return true;
        }
        return false;
    }
    inline void born(void * p, const char * type)
    {
        if (!st().inside) return;
        sim::Host h;
        st().live[p] = type;
        st().dead.erase(p);
        st().created++;
    }
    inline void dies(void * p, const char * type)
    {
        if (!st().inside || !p) return;
        sim::Host h;
        if (!st().live.erase(p) && st().dead.count(p)) sim::fail("S03/double-destroy", "a %s that is gone already is destroyed again", type);
        st().dead.insert(p);
        st().destroyed++;
    }
}    // namespace seam
