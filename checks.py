"""Which scenarios decide which property, and how the scenario binaries are built."""

BINARIES = {
    "util": {"sources": ["util.cc"], "scenarios": ["handles", "std_handles", "repo", "repo_faults", "vec", "vec_faults", "vec_pinned_faults"]},
    "topo": {"sources": ["topo.cc"], "scenarios": ["topo", "topo_faults", "flipdiag"]},
    "mesh": {"sources": ["mesh.cc"], "scenarios": ["mesh", "mesh_faults"]},
    "refine": {"sources": ["refine.cc"], "link": ["-Wl,--wrap=METIS_PartMeshDual"],
               "scenarios": ["refine", "refine_faults", "partition", "partition_faults", "points", "points_faults"]},
    "integrate": {"sources": ["integrate.cc"], "scenarios": ["integrate", "flux", "flux_faults"]},
    "curvi": {"sources": ["curvi.cc"], "scenarios": ["curvi", "curvi_faults"]},
    "solve": {"sources": ["solve.cc", "petsc_seam.cc"], "repo_sources": ["lib/mito/matrix_solvers/**/*.cc"], "wraps": "petsc_seam.cc", "scenarios": ["solve", "solve_faults"]},
    "fem": {"sources": ["fem.cc", "petsc_seam.cc"], "repo_sources": ["lib/mito/matrix_solvers/**/*.cc"], "wraps": "petsc_seam.cc", "scenarios": ["fem", "fem_faults"]},
    "fields": {"sources": ["fields.cc"], "scenarios": ["fields", "fields_faults"]},
    "python": {"sources": ["python.cc"], "repo_sources": ["extensions/mito/mito.cc", "lib/mito/matrix_solvers/**/*.cc"], "python": True, "scenarios": ["python", "python_faults"]},
    "vtk": {"sources": ["vtk.cc"], "flags": ["-DWITH_VTK", "-DWITH_PARALLEL_VTK", "-IVERIF/stubs/vtk"], "scenarios": ["vtk", "vtk_faults"]},
    "job": {"sources": ["job.cc"], "flags": ["-DWITH_VTK", "-DWITH_PARALLEL_VTK", "-IVERIF/stubs/vtk"],
            "link": ["-Wl,--wrap=" + f for f in ("METIS_PartMeshDual", "MPI_Init", "MPI_Finalize", "MPI_Comm_rank", "MPI_Comm_size")], "scenarios": ["job", "job_faults"]},
    "materials": {"sources": ["materials.cc"], "scenarios": ["materials"]},
    # (unoptimised: it instantiates a great many expressions)
    "calculus": {"sources": ["calculus.cc"], "flags": ["-O0", "-g0"], "scenarios": ["calculus", "calculus_faults"]},
    "forms": {"sources": ["forms.cc"], "flags": ["-O0", "-g0"], "scenarios": ["forms", "forms_faults"]},
    "io": {"sources": ["io.cc"], "link": ["-ldl"], "scenarios": ["io", "io_read_faults", "io_write_faults"]},
}


def S(*names):
    return [{"scenario": n} for n in names]


PROPERTIES = {
    "U01": {"area": "util", "scenarios": S("handles", "std_handles")},
    "U02": {"area": "util", "scenarios": S("repo")},
    "U03": {"area": "util", "scenarios": S("repo", "vec")},
    "U04": {"area": "util", "scenarios": S("vec")},
    "U05": {"area": "util", "scenarios": S("repo_faults", "vec_faults", "vec_pinned_faults")},
    "T01": {"area": "topo", "scenarios": S("topo", "topo_faults")},
    "T02": {"area": "topo", "scenarios": S("topo")},
    "T03": {"area": "topo", "scenarios": S("topo")},
    "T04": {"area": "topo", "scenarios": S("topo_faults")},
    "T05": {"area": "topo", "scenarios": S("flipdiag", "mesh")},
    "T06": {"area": "topo", "scenarios": S("topo")},
    "G01": {"area": "geometry", "scenarios": S("points", "points_faults")},
    "G02": {"area": "mesh", "scenarios": S("mesh")},
    "M01": {"area": "mesh", "scenarios": S("mesh")},
    "M02": {"area": "mesh", "scenarios": S("mesh")},
    "M03": {"area": "mesh", "scenarios": S("mesh")},
    "M04": {"area": "mesh", "scenarios": S("refine")},
    "M05": {"area": "mesh", "scenarios": S("partition", "partition_faults")},
    "M06": {"area": "mesh", "scenarios": S("mesh_faults", "refine_faults", "partition_faults")},
    "M07": {"area": "mesh", "scenarios": S("mesh", "mesh_faults")},
    "Q01": {"area": "quadrature", "scenarios": S("integrate")},
    "Q02": {"area": "quadrature", "scenarios": S("flux", "flux_faults")},
    "Q03": {"area": "quadrature", "scenarios": S("curvi", "curvi_faults")},
    "I01": {"area": "io", "scenarios": S("io", "io_write_faults")},
    "I02": {"area": "io", "scenarios": S("io_read_faults")},
    "I03": {"area": "io", "scenarios": S("io_write_faults")},
    "I04": {"area": "vtk", "scenarios": S("vtk", "vtk_faults")},
    "I05": {"area": "vtk", "scenarios": S("vtk_faults")},
    "E01": {"area": "materials", "scenarios": S("materials")},
    "J01": {"area": "job", "scenarios": S("job", "job_faults")},
    "P01": {"area": "python", "scenarios": S("python", "python_faults")},
    "P02": {"area": "python", "scenarios": S("python_faults")},
    "C01": {"area": "calculus", "scenarios": S("calculus", "calculus_faults")},
    "C02": {"area": "calculus", "scenarios": S("calculus", "calculus_faults")},
    "C03": {"area": "forms", "scenarios": S("forms", "forms_faults")},
    "D01": {"area": "discrete", "scenarios": S("fields", "fields_faults")},
    "F01": {"area": "fem", "scenarios": S("fem", "fem_faults")},
    "F02": {"area": "fem", "scenarios": S("fem")},
    "F03": {"area": "fem", "scenarios": S("fem", "fem_faults")},
    "F04": {"area": "fem", "scenarios": S("fem")},
    "S01": {"area": "solvers", "scenarios": S("solve")},
    "S02": {"area": "solvers", "scenarios": S("solve_faults")},
    "S03": {"area": "solvers", "scenarios": S("solve", "solve_faults")},
    "S04": {"area": "solvers", "scenarios": S("solve")},
}

for _p in PROPERTIES.values():
    _p.setdefault("quick_s", 25)

_BASE = ["mito/utilities", "libstdc++", "pyre journal and tensors"]
_MEM = "global operator new/delete (seeded arena: placement, reuse, exhaustion)"
REAL = {
    "util": ["mito/utilities (handles, repository, segmented containers)", "libstdc++"],
    "topo": _BASE + ["mito/topology"],
    "geometry": _BASE + ["mito/geometry", "mito/topology"],
    "mesh": _BASE + ["mito/topology", "mito/geometry", "mito/mesh", "METIS (partition scenarios; its failures are simulated)"],
    "quadrature": _BASE + ["mito/topology", "mito/geometry", "mito/mesh", "mito/manifolds", "mito/quadrature", "mito/fields", "mito/functions"],
    "discrete": _BASE + ["mito/topology", "mito/geometry", "mito/mesh", "mito/fields", "mito/discrete"],
    "fem": _BASE + ["mito/topology", "mito/geometry", "mito/mesh", "mito/manifolds", "mito/quadrature", "mito/fields", "mito/functions", "mito/discrete", "mito/fem", "mito/solvers", "mito/matrix_solvers", "PETSc (sequential matrices, vectors, Krylov solvers and factorizations)"],
    "solvers": ["mito/matrix_solvers", "PETSc (sequential matrices, vectors, Krylov solvers and factorizations)", "pyre journal"],
    "io": _BASE + ["mito/topology", "mito/geometry", "mito/mesh", "mito/io (summit)", "C++ file streams"],
    "calculus": ["mito/functions", "mito/fields", "mito/geometry (coordinates)", "mito/tensor", "pyre tensors"],
    "forms": ["mito/tensor", "mito/functions", "mito/fields", "mito/geometry (coordinates, metric spaces)", "pyre tensors"],
    "python": _BASE + ["the CPython interpreter", "pybind11", "extensions/mito (the module)", "mito/geometry", "mito/mesh", "mito/manifolds", "mito/quadrature", "mito/functions", "mito/io (summit reader)"],
    "materials": ["mito/materials", "mito/tensor", "pyre tensors and journal"],
    "job": _BASE + ["mito/simulation (context)", "mito/topology", "mito/geometry", "mito/mesh", "mito/manifolds", "mito/quadrature", "mito/discrete", "mito/io (summit reader, parallel vtk writer)", "METIS (its failures are simulated)"],
    "vtk": _BASE + ["mito/topology", "mito/geometry", "mito/mesh", "mito/discrete", "mito/fem (function spaces)", "mito/io (vtk)"],
}
STUB = {
    "util": [_MEM, "element types (instrumented)"],
    "topo": [_MEM],
    "geometry": [_MEM],
    "mesh": [_MEM, "METIS_PartMeshDual return code (partition_faults only)", "MPI ranks (simulated one after another, each with its own memory)"],
    "quadrature": [_MEM],
    "discrete": [_MEM],
    "calculus": [_MEM],
    "forms": [_MEM],
    "fem": [_MEM, "calls from mito into PETSc pass through a seam that makes them fail, reports divergence, and accounts for every object created and destroyed", "MPI (one rank)"],
    "solvers": [_MEM, "calls from mito into PETSc pass through a seam that makes them fail, reports divergence, and accounts for every object created and destroyed; PETSc's options are kept by PETSc", "MPI (one rank)"],
    "python": [_MEM, "mesh files (in memory)"],
    "materials": [_MEM],
    "job": [_MEM, "MPI (rank and size of the job, start and end of each process, and which process runs next, come from the simulator)", "VTK, which is not installed here: stubs/vtk records the pieces and makes writes fail or tear", "METIS_PartMeshDual return code (job_faults only)", "mesh files (in memory; may be torn)"],
    "vtk": [_MEM, "VTK, which is not installed here: stubs/vtk records the grids, arrays and files, and makes writes fail or tear", "MPI ranks (each process of a job writes in a scheduled order; the rank and the size of the job come from the simulator)"],
    "io": [_MEM, "the disk below the C++ file streams (fopen, read, write, writev, lseek, fclose on simulated files)"],
}

NOT_APPLICABLE = {}
HOOK_COMMITS = []
