#include "petsc_seam.h"
using namespace seam;

#define GATE(name) \
    if (fails(#name)) return PETSC_ERR_MEM
#define PLAIN(name, params, args)                     \
    extern "C" PetscErrorCode __real_##name params;   \
    extern "C" PetscErrorCode __wrap_##name params    \
    {                                                 \
        GATE(name);                                   \
        return __real_##name args;                    \
    }

PLAIN(VecSetSizes, (Vec v, PetscInt n, PetscInt N), (v, n, N))
PLAIN(VecSetFromOptions, (Vec v), (v))
PLAIN(VecSetUp, (Vec v), (v))
PLAIN(VecGetArrayRead, (Vec v, const PetscScalar ** a), (v, a))
PLAIN(VecGetSize, (Vec v, PetscInt * n), (v, n))
PLAIN(VecGetLocalSize, (Vec v, PetscInt * n), (v, n))
PLAIN(VecGetValues, (Vec v, PetscInt n, const PetscInt * i, PetscScalar * y), (v, n, i, y))
PLAIN(VecSet, (Vec v, PetscScalar a), (v, a))
PLAIN(VecZeroEntries, (Vec v), (v))
PLAIN(VecAssemblyBegin, (Vec v), (v))
PLAIN(MatSetSizes, (Mat m, PetscInt a, PetscInt b, PetscInt c, PetscInt d), (m, a, b, c, d))
PLAIN(MatSetFromOptions, (Mat m), (m))
PLAIN(MatSetUp, (Mat m), (m))
PLAIN(MatSetOption, (Mat m, MatOption o, PetscBool f), (m, o, f))
PLAIN(MatSetValues, (Mat m, PetscInt nr, const PetscInt * r, PetscInt nc, const PetscInt * c, const PetscScalar * v, InsertMode mode), (m, nr, r, nc, c, v, mode))
PLAIN(MatAssemblyBegin, (Mat m, MatAssemblyType t), (m, t))
PLAIN(MatAssemblyEnd, (Mat m, MatAssemblyType t), (m, t))
PLAIN(MatZeroEntries, (Mat m), (m))
PLAIN(KSPGetOperators, (KSP k, Mat * a, Mat * p), (k, a, p))
PLAIN(KSPSetOperators, (KSP k, Mat a, Mat p), (k, a, p))
PLAIN(KSPSetOptionsPrefix, (KSP k, const char * p), (k, p))
PLAIN(KSPSetFromOptions, (KSP k), (k))
PLAIN(PetscOptionsInsertString, (PetscOptions o, const char * s), (o, s))

// the outcome of the last solve, where the simulation decides it
static std::map<KSP, KSPConvergedReason> decided;
extern "C" PetscErrorCode __real_KSPGetConvergedReason(KSP k, KSPConvergedReason * r);
extern "C" PetscErrorCode __wrap_KSPGetConvergedReason(KSP k, KSPConvergedReason * r)
{
    GATE(KSPGetConvergedReason);
    auto it = decided.find(k);
    if (it != decided.end()) {
        *r = it->second;
        return PETSC_SUCCESS;
    }
    return __real_KSPGetConvergedReason(k, r);
}

extern "C" PetscErrorCode __real_VecRestoreArrayRead(Vec v, const PetscScalar ** a);
extern "C" PetscErrorCode __wrap_VecRestoreArrayRead(Vec v, const PetscScalar ** a)
{
    bool f = fails("VecRestoreArrayRead");
    PetscErrorCode e = __real_VecRestoreArrayRead(v, a);    // (a lock left behind would be the library's fault)
    return f ? PETSC_ERR_MEM : e;
}
extern "C" PetscErrorCode __real_VecSetValues(Vec v, PetscInt n, const PetscInt * i, const PetscScalar * y, InsertMode m);
extern "C" PetscErrorCode __wrap_VecSetValues(Vec v, PetscInt n, const PetscInt * i, const PetscScalar * y, InsertMode m)
{
    GATE(VecSetValues);
    PetscErrorCode e = __real_VecSetValues(v, n, i, y, m);
    if (!e && st().inside) {
        sim::Host h;
        st().pending.insert(v);
    }
    return e;
}
extern "C" PetscErrorCode __real_VecAssemblyEnd(Vec v);
extern "C" PetscErrorCode __wrap_VecAssemblyEnd(Vec v)
{
    GATE(VecAssemblyEnd);
    PetscErrorCode e = __real_VecAssemblyEnd(v);
    if (!e && st().inside) {
        sim::Host h;
        st().pending.erase(v);
    }
    return e;
}

#define CREATE(name, type, label)                              \
    extern "C" PetscErrorCode __real_##name(MPI_Comm, type *); \
    extern "C" PetscErrorCode __wrap_##name(MPI_Comm c, type * p) \
    {                                                          \
        GATE(name);                                            \
        PetscErrorCode e = __real_##name(c, p);                \
        if (!e) born(*p, label);                               \
        return e;                                              \
    }
#define DESTROY(name, type, label)                    \
    extern "C" PetscErrorCode __real_##name(type *);  \
    extern "C" PetscErrorCode __wrap_##name(type * p) \
    {                                                 \
        if (p && *p && fails(#name, true)) return PETSC_ERR_LIB; \
        if (p) dies(*p, label);                       \
        return __real_##name(p);                      \
    }
CREATE(VecCreate, Vec, "vector")
CREATE(MatCreate, Mat, "matrix")
CREATE(KSPCreate, KSP, "solver")
#define BORN(name, out, label, params, args)          \
    extern "C" PetscErrorCode __real_##name params;   \
    extern "C" PetscErrorCode __wrap_##name params    \
    {                                                 \
        GATE(name);                                   \
        PetscErrorCode e = __real_##name args;        \
        if (!e) born(*out, label);                    \
        return e;                                     \
    }
BORN(VecDuplicate, w, "vector", (Vec v, Vec * w), (v, w))
BORN(MatDuplicate, w, "matrix", (Mat m, MatDuplicateOption o, Mat * w), (m, o, w))
BORN(VecCreateSeq, w, "vector", (MPI_Comm c, PetscInt n, Vec * w), (c, n, w))
BORN(VecCreateMPI, w, "vector", (MPI_Comm c, PetscInt n, PetscInt N, Vec * w), (c, n, N, w))
BORN(MatCreateSeqAIJ, w, "matrix", (MPI_Comm c, PetscInt m, PetscInt n, PetscInt z, const PetscInt * nz, Mat * w), (c, m, n, z, nz, w))
DESTROY(MatDestroy, Mat, "matrix")
DESTROY(KSPDestroy, KSP, "solver")
extern "C" PetscErrorCode __real_VecDestroy(Vec *);
extern "C" PetscErrorCode __wrap_VecDestroy(Vec * p)
{
    if (p && *p && fails("VecDestroy", true)) return PETSC_ERR_LIB;
    if (p) {
        if (*p && st().inside) {
            sim::Host h;
            st().pending.erase(*p);
        }
        dies(*p, "vector");
    }
    return __real_VecDestroy(p);
}

extern "C" PetscErrorCode __real_KSPSolve(KSP k, Vec b, Vec x);
extern "C" PetscErrorCode __wrap_KSPSolve(KSP k, Vec b, Vec x)
{
    auto & s = st();
    auto spoil = [&] {
        bool was = s.inside;
        s.inside = false;
        VecSet(x, 3.25e7);
        s.inside = was;
    };
    if (fails("KSPSolve")) {
        spoil();
        return PETSC_ERR_LIB;
    }
    if (!s.inside) return __real_KSPSolve(k, b, x);
    {
        sim::Host h;
        decided.erase(k);
        s.inside = false;
        s.solves++;
        if (s.pending.count(b)) sim::fail("S01/not-assembled", "the right hand side is handed to the solver before its values are assembled");
        Mat A = nullptr;
        KSPGetOperators(k, &A, nullptr);
        PetscInt n = 0;
        VecGetSize(b, &n);
        s.size = n;
        s.A.assign((size_t) (n * n), 0);
        s.b.assign((size_t) n, 0);
        PetscBool ready = PETSC_FALSE;
        if (A) MatAssembled(A, &ready);
        if (!ready) sim::fail("S01/not-assembled", "the matrix is handed to the solver before it is assembled");
        std::vector<PetscInt> all;
        for (PetscInt i = 0; i < n; ++i) all.push_back(i);
        if (n) {
            MatGetValues(A, n, all.data(), n, all.data(), s.A.data());
            const PetscScalar * p;
            VecGetArrayRead(b, &p);
            std::copy(p, p + n, s.b.begin());
            VecRestoreArrayRead(b, &p);
        }
        KSPGetTolerances(k, &s.rtol, &s.atol, &s.dtol, &s.maxit);
        KSPType kt = nullptr;
        KSPGetType(k, &kt);
        s.ksp_type = kt ? kt : "";
        s.restart = -1;
        s.modified = false;
        if (s.ksp_type == "gmres") {
            PetscInt n = 0;
            KSPGMRESGetRestart(k, &n);
            s.restart = (int) n;
            PetscErrorCode (*how)(KSP, PetscInt) = nullptr;
            KSPGMRESGetOrthogonalization(k, &how);
            s.modified = how == KSPGMRESModifiedGramSchmidtOrthogonalization;
        }
        PC pc;
        KSPGetPC(k, &pc);
        PCType pt = nullptr;
        PCGetType(pc, &pt);
        s.pc_type = pt ? pt : "";
        s.inside = true;
    }
    if (s.tag) {
        s.inside = false;
        for (PetscInt i = 0; i < s.size; ++i) VecSetValue(x, i, 1000.0 + i, INSERT_VALUES);
        VecAssemblyBegin(x);
        VecAssemblyEnd(x);
        s.inside = true;
        sim::Host h;
        decided[k] = KSP_CONVERGED_RTOL;
        return PETSC_SUCCESS;
    }
    PetscErrorCode e = __real_KSPSolve(k, b, x);
    {
        sim::Host h;
        s.inside = false;
        s.x.assign((size_t) s.size, 0);
        const PetscScalar * p;
        VecGetArrayRead(x, &p);
        std::copy(p, p + s.size, s.x.begin());
        VecRestoreArrayRead(x, &p);
        s.inside = true;
    }
    if (!e && s.kind == PF_DIVERGE) {
        spoil();
        sim::Host h;
        decided[k] = s.n % 3 == 0 ? KSP_DIVERGED_ITS : s.n % 3 == 1 ? KSP_DIVERGED_NANORINF : KSP_DIVERGED_BREAKDOWN;
        s.fired++;
        sim::fault("no-convergence");
        PetscBool strict = PETSC_FALSE;
        s.inside = false;
        KSPGetErrorIfNotConverged(k, &strict);
        s.inside = true;
        if (strict) return PETSC_ERR_NOT_CONVERGED;
    }
    return e;
}
