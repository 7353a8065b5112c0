import json
PLAN={
"G01":["The operator and preconditioner objects passed in are recording shells over dense matrices. For each return the true residual and preconditioned residual of the returned vector are recomputed in numpy and compared with the tolerances that were in force and with the returned residual vector.","Random systems: 8 operator families × 8 preconditioners, sizes 1–72, scales 1e-3…1e3, tolerances (given/default), restarts, zero right-hand sides. 160 cases quick, thousands thorough.","The tests check two fixed systems; the guarantee is universally quantified over systems, tolerances and restarts (e.g. a swapped `tol`/`reltol` is invisible for the default values on well-scaled systems)."],
"G02":["Fault injection: at every single application of operator and preconditioner during the iteration a NaN, ±inf or exception is injected; the call must raise. A reference GMRES (dense, double Gram-Schmidt) says at which step the tolerance is met; limits around that step must flip between raise and return. An online counter bounds the number of applications.","Every fault position × 4 kinds on small systems (exhaustive per system), limits m-1, m, m+1, 0; stagnating and singular inconsistent systems.","Failure paths are not tested at all; fault positions are enumerated rather than sampled."],
"G03":["Bitwise snapshots of right-hand side/operator/preconditioner; results of interleaved histories compared with the first result of the same arguments.","Random histories with repetition over a pool of systems, with failing solves in between and objects whose contents change between calls.","Single-call tests cannot see state leaking between calls (cached work vectors, options)."],
"G04":["Standard output is captured at file-descriptor level and parsed; each printed residual is compared with the reference restarted GMRES, where the reference is numerically decisive.","Random systems, restarts 1…n and default (cyclic shifts around 1000 decide it), step limits, converging and failing; printing off.","Tests never look at the output; the default restart shows only beyond 1000 iterations."],
"G05":["Each rank checks its rows of the solution against a dense solve, and communicator and layout of the result.","In-process sequential/MPI vectors on SELF, WORLD and duplicates; under `mpirun -n 2…4` (8): even, skewed, empty-rank layouts on world, split, self communicators. Interleavings of ranks are those MPI produces.","The tests run on one process."],
"G06":["The observed printed history reveals which limit/tolerance/restart was in force; decided only where candidate values differ with a clear margin.","All combinations of arguments and overriding PETSc options.","Option precedence is history/environment-dependent; not tested."],
"G07":["Resident memory after each solve of a series; growth per solve after warm-up against the size of the Krylov basis and, for short restarts, of one vector; weak references to operators and preconditioners of finished solves.","Converging, limit-stopped, raising solves; default/explicit restart.","Leaks show only over many calls."],
"T01":["Entrywise comparison with exact rational integrals; every matrix already returned is overwritten before the next call, so shared/cached results show.","All 16 degree pairs (exhaustive) and random histories of calls.","Tests do not touch these routines."],
"T02":["Exported basis and derivative functions against exact Lagrange polynomials, at numbers, arrays, symbols; integrated against the T01 matrices.","All degrees 0–3, all functions (exhaustive), random arguments.","—not tested; consistency between two representations of the basis."],
"T03":["Monomials and random polynomials up to the nominal degree integrated with returned points/weights, against exact integrals; positivity, sum, containment.","All rules and point numbers (exhaustive) × unit, tiny, long, negative, random intervals, objects interleaved.","Any interval; not tested."],
"T04":["End values, and the derivative obtained from the lifting itself by complex steps and symbolically.","Random times and argument types.","Not tested."],
"S01":["The data term is isolated as a difference of matrices with different data weights and compared with the region's own mass matrix; bitwise snapshots of user objects, which are then reused.","Random regions × problems.","Region handling is per-cell/per-mesh; the tests use one region and cannot run here."],
"S02":["Conservation/exactly-once: every unknown carries a unique label; what each slab solver received and where each answer ends up is compared with the dof maps.","Random numberings × problems × both preconditioners.","Tests use the platform's default numbering, for which mistakes can cancel."],
"S03":["Matrix-free application vs assembled matrix, row-wise relative to |A||x|.","Random problems (one with up to 36 slabs) × 7 kinds of vectors (graded over 14 decades, unit …).","Holds for every problem setting and vector."],
"S04":["Symmetry entrywise; extreme eigenvalues of the diagonal blocks; exact affine dependence on each parameter.","Random problems and parameters over decades.","Spectral facts are not sampled by unit tests."],
"S05":["Every entry of every matrix against the reference model of §3.","Random problems including all block matrices (space-time, slab, first slab, coupling, interface, preconditioning variant); up to 24 slabs; each weight goes through 0/1e-12, 1e-7 and 1e4, half of the final times are below 0.1 or above 10.","Differential oracle independent of the code."],
"S06":["Right-hand side against reference functional; linearity in the data; changes of the solution outside the region must not matter.","Random problems (one with 40–140 slabs), solutions, regions, extreme weights.","—as above."],
"S07":["P·M(x) = x for the assembled preconditioning matrix P, with exact slab solvers; residual relative to |P||M x|.","Random problems without forward jumps, both variants.","Inverse relation over all inputs."],
"S08":["Online trace monitor: first-slab solver once, then general solver once per later slab, in order; received vectors = input part + load of previous slab's end values; changing later slabs' input leaves earlier output bit-identical.","Scripted slab solvers, random problems (one with 40–140 slabs).","Ordering/causality is a trace property."],
"S09":["Optimised vs reference variant on every output; refusal where unsupported.","Random interleavings (one with 40–140 slabs); well-conditioned linear slab maps so that differences are not hidden.","History-dependent."],
"S10":["Output of a repeated input must repeat; outputs pre-filled with NaN/garbage; inputs bitwise unchanged; linearity; zero is mapped to zero at any time.","Random histories of all operations (applications, getters, transfers, plots, exports, error measurement).","Statelessness over histories."],
"S11":["Every value obtained in a random call history equals the value a fresh solver gives; after preparation everything works.","Random sequences of set-up calls and getters.","Order of calls: the tests use one order."],
"S12":["GMRES solution vs direct solution, bounded by tolerance / smallest singular value of the preconditioned matrix.","Small random problems, wrappers and drivers' path.","End-to-end, all settings."],
"S13":["Reported norms vs own evaluation (nodal coefficients, scalar mass matrix, exact Radau); vector unchanged; vanish for the exact one.","Random, exact, perturbed, large-at-start or -end solutions, NaN in one level of one slab, up to 170 samples.","Quantities no test compares."],
"S14":["Observed convergence orders of directly solved problems, errors evaluated by the check.","Standing waves with random phase, GCC regions, several orders, two halvings.","Convergence is the method's purpose; tests use one mesh."],
"S15":["Prolonged function compared with the coarse one at random points; restriction recovers; single-level inputs stay in their level.","Nested graded meshes with random extra nodes; all cell types; differing orders per field.","—field mix-ups need differing orders."],
"S16":["Two-level application vs the formula from separately obtained parts; coarse matrix vs reference on the coarse mesh; monitored coarse solver.","Random nested pairs and problems.","Not covered by tests."],
"S17":["Spy on `pcolormesh` and parser for the exported files: each drawn/written value against own evaluation at its own coordinates.","Random 1D problems for plots; all dims for exports.","Outputs are not tested."],
"S18":["Metamorphic: renumbering, permutation, reflection, more slabs of equal length; blocks of later slabs equal.","Random problems × transformations.","Relations between runs."],
"S19":["Families of 3–4 solvers sharing argument objects, operations interleaved; each result equals that of the solver built alone, and the reference model; orders, weights, region and solution objects of the user stay as they were.","Random families/histories, one region on several meshes, vanishing weights.","Cross-instance state (class attributes, mutable defaults, shared dicts)."],
"S20":["Bytes in use on the heap (mallinfo2, caches of the stand-in cleared) after each call of a series with unchanged arguments: mean growth below 0.4 of the vector of one field, or else so in a following series of 30 calls; a weak reference to the dropped solver.","7 problems with larger slabs quick, ~10 operations each, 6 (thorough 15) calls after two warm-up calls; only leaks per call of the order of a slab vector are claimed.","The tests call each operation once or twice and look at no memory."],
"S21":["A fuse in the slab and coarse solvers, the functions of the solution and data region and the calls of the finite element library raises one of 12 kinds of failure (exceptions, interrupt, no memory) at a chosen call: it must arrive at the caller (itself or as cause), and all later results must be those of an object which never failed.","6 problems quick; every part of every application with every kind, plus 2 random histories of up to 12 operations with failures each (thorough 6); results compared to 1e-12.","Nothing fails in the tests."],
"D01":["Derivatives of the shipped sample solution (complex step/differences of the UFL expression in space-time) give the PDE residual; region functions on random batches against the documented region; values the solver received on every cell.","Each example in an own process, as shipped and with other constants.","The examples have no tests."],
"D02":["Solution each back end hands to the error measurement vs independent direct solution; adapters on random systems; residuals of the slab solvers the example sets, in the system of their slab.","3 examples × 4 back ends × constants.","—"],
"D03":["Selected back end and warnings with the optional package absent, broken, present; module and script.","3 × 3 × 2 processes.","Environment-dependent behaviour."],
"D04":["Output captured at file-descriptor level; vectors given to error measurement, plots and export compared with a direct solution of the space-time system; files written by the run; delays of about 1 s in the set-up, the solve and the error measurement tell what the printed time covers (compared only if the clock was steady); peak memory before and after the run bounds the printed one.","24 processes, about 50 runs of the examples quick.","The tests look at no output."],
"M01":["All cells: volume>0, facet-neighbour counts, total volume, border facets on the documented boundary (exact).","All generators with random admissible parameters in random order.","The tests call few generators once."],
"M02":["Part of each cell inside each documented subregion (polygon clipping/lattice) must be 0 or 1; volumes add up.","as M01","as M01"],
"M03":["Depth of lists; each fine cell in exactly one coarse cell; edges halved; list vs single meshes; halved factors never coarser.","Random parameters, 0–3 refinements, up to 5 meshes.","Hierarchy relations."],
"M04":["gmsh session state after each call; mesh equal to that of a fresh process; a fuse in the functions of gmsh, meshio and the mesh library makes calls fail (exceptions, interrupt, no memory), and others get parameters without a mesh: the failure must arrive and the session be closed.","7 histories of 14–19 calls quick, 80 thorough; about 4 failing calls each.","History-dependent; the tests call one generator once and nothing fails."],
"M05":["Every generator under the 0.6 interface; all-around also under 0.7.0–0.7.3; meshes equal.","Scratch package metadata.","Two platform versions cannot both be installed in one test run."],
"M06":["After each call mesh.xdmf, mt.xdmf (by a reader of our own) and mesh.msh (by meshio) are read back and compared with the returned mesh cell by cell; markers against the subregions of the documented layouts, or piece by piece (connected components); border edges against those of the domain.","24 batches of 4–5 calls quick, 300 thorough, sharing one folder; positions at the ends of their ranges included.","The files are only looked at by users."],
}
json.dump(PLAN,open('/verif/tools/design_plan.json','w'),indent=1)
