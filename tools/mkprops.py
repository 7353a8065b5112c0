import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state])))
G="src/dxss/gmres.py"; T="src/dxss/precomp_time_int.py"; S="src/dxss/space_time.py"; M="src/dxss/meshes.py"
D=["src/dxss/solve_1d.py","src/dxss/solve_2d.py","src/dxss/solve_3d.py"]
noimp="The existing space-time tests need DOLFINx and cannot even be collected here; where they run they solve one slab problem on one mesh with one set of orders."
p("G01","A returned GMRES solution meets the tolerance and its residual is b - Ax",
 "Whenever the linear solver returns, the preconditioned residual of the returned solution is no larger than the larger of the absolute tolerance and the relative tolerance times the preconditioned right-hand side (1e-12 and 1e-7 unless given). The second returned vector is the true residual b - A x of that solution. (Both up to rounding of A x.)",
 ["inputs","configurations"],"every operator, right-hand side, preconditioner, tolerance pair, restart length and step limit for which the call returns",
 "The tests solve one random system per size with the identity or a mild skew perturbation and the identity preconditioner, default tolerances only, and never look at the returned residual.",
 [G],[("KSP tolerances, residual of the returned solution",G+":get_gmres_solution")],["return value of get_gmres_solution"])
p("G02","GMRES never passes off a failed solve as a solution",
 "If the tolerance is not reached within the given number of steps, or the operator or preconditioner raises or produces non-finite values while iterating, the call raises an exception instead of returning. It never performs more iterations than the step limit, and it does return a solution when full GMRES in exact arithmetic reaches the tolerance within the limit.",
 ["inputs","fault_sequences"],"every system, step limit and restart, and every fault (NaN, infinity, exception) at any application of the operator or preconditioner",
 "No test drives a solve that fails, hits the step limit or sees a faulty operator.",
 [G],[("converged reason test",G+":get_gmres_solution"),("max_it",G+":get_gmres_solution")],["exception / return of get_gmres_solution","calls of the operator"])
p("G03","GMRES solves do not depend on history and leave the inputs alone",
 "The result of a solve depends only on its arguments: repeating it, or interleaving it with other solves (including failing ones and ones with other parameters), gives the same solution. The right-hand side, the operator and the preconditioner passed in are not modified.",
 ["histories"],"every sequence of successful and failing solves with differing sizes, restarts, tolerances and print settings",
 "Tests run each solve once; nothing compares a solve before and after others.",
 [G],[("fresh KSP per call, global PETSc options",G+":get_gmres_solution")],["return values over a call history"])
p("G04","The printed convergence history is the true GMRES history",
 "With rate printing on, one line is printed per iteration, numbered consecutively from 0, whose residual is the preconditioned residual norm of that restarted-GMRES iterate (restarting after the requested number of steps, 1000 by default); with it off no such line is printed. The iteration numbers never exceed the step limit and the last printed residual is the one that satisfied the stopping test.",
 ["inputs","configurations"],"every system, restart length, tolerance and step limit, with printing on or off",
 "No test reads the output or varies restart.",
 [G],[("convergence_monitor",G+":convergence_monitor"),("setGMRESRestart",G+":get_gmres_solution")],["standard output"])
p("G05","GMRES works for any communicator and parallel layout of the right-hand side",
 "The solve works for a right-hand side on any communicator and with any distribution of its entries over the processes, and the solution has the same communicator and distribution. Up to rounding the solution does not depend on the distribution.",
 ["configurations","schedules"],"every communicator (self, world, sub-communicator), process count and row distribution",
 "The tests run on one process.",
 [G],[("shell matrix layout",G+":get_gmres_solution")],["distributed solution vector"])
p("G06","Run-time PETSc options override the GMRES defaults",
 "Options which the user sets in the PETSc options database (step limit, tolerances, restart length) take precedence over the values of the call and its defaults. With no options set the call's arguments are used exactly: absolute tolerance, relative tolerance, step limit and restart are not interchanged or altered.",
 ["configurations"],"every combination of call arguments and run-time options for tolerance, step limit and restart",
 "No test passes anything but the default arguments or sets an option.",
 [G],[("setFromOptions",G+":get_gmres_solution")],["iteration counts, stopping residuals"])
p("G07","Repeated GMRES solves do not accumulate solver memory",
 "Each call of the GMRES solver frees the Krylov basis it allocated, whether it returns or raises, so that the memory of a process that performs many solves (refinement studies, parameter sweeps) stays bounded. A call that returns or stops at the step limit keeps no other vector than those it returns, and neither the operator nor the preconditioner object alive.",
 ["histories"],"every sequence of solves, converging or failing",
 "The tests solve a handful of tiny systems and do not look at memory.",
 [G],[("solver set-up and release",G+":get_gmres_solution")],["resident memory of the process","weak references to operator and preconditioner"])
p("T01","Temporal element matrices are the exact integrals of the time basis",
 "For all supported temporal degrees the mass, mixed mass, derivative and stiffness matrices over the reference time interval equal the exact integrals of products of the Lagrange basis functions and their derivatives, with test functions in rows and trial functions in columns. Each call returns fresh matrices, so that modifying one result never changes a later one.",
 ["inputs","histories"],"all 16 pairs of temporal degrees (0..3) and every sequence of calls",
 "No test imports this module.",
 [T],[("get_elmat_time",T+":get_elmat_time")],["returned dictionary"])
p("T02","The exported time basis is a Lagrange basis with exact derivatives",
 "For each supported temporal degree the basis functions are the Lagrange polynomials at equispaced nodes of the unit interval (first node at the start, last at the end, constant for degree 0), and the derivative functions are their exact derivatives. They agree with the basis integrated in the temporal element matrices.",
 ["inputs"],"all temporal degrees 0..3 and every real evaluation point (float, array or symbolic)",
 "No test evaluates the basis.",
 [T],[("basis_in_time",T+":basis_in_time")],["values of the basis functions"])
p("T03","Quadrature rules integrate polynomials exactly on every interval",
 "On every interval each rule's points lie in the interval and, with the weights for that interval's length, it integrates all polynomials up to its nominal degree (n-point Gauss 2n-1, n-point left Radau 2n-2, trapezoid 1, Simpson 3, midpoint 1), to the accuracy of the tabulated digits. Weights are positive and sum to the interval's length, and the first Radau point is the left end.",
 ["inputs"],"every rule and number of points, every interval and every polynomial of the nominal degree",
 "No test integrates anything with the rules.",
 [T],[("QuadRule",T+":QuadRule")],["points and weights"])
p("T04","The slab-interface lifting goes from one to zero, with an exact derivative",
 "The lifting function on the reference slab takes the value 1 at the start and 0 at the end of the slab. Its derivative function is its exact derivative at every point.",
 ["inputs"],"every reference time",
 "No test evaluates it.",
 [T],[("theta_ref, d_theta_ref",T+":theta_ref")],["values of the functions"])
p("S01","The given data region, and nothing else, defines where data enters",
 "With a mesh-fitted data region the solver uses, on every cell, exactly the value of the user's indicator function on that cell; with an unfitted one it uses the given expression pointwise. The objects the user passed in (region, orders, parameters, solution) are not modified, so they can be reused for other solvers.",
 ["inputs","histories"],"every indicator function, mesh, order, fitted or unfitted region and every sequence of solvers sharing one region object",
 noimp+" None checks the assembled data term.",
 [S],[("indicator interpolation",S+":SpaceTime.__init__")],["assembled matrix and right-hand side","the user's DataDomain object"])
p("S02","Slab and space-time vectors correspond one to one",
 "In every application of a time-marching preconditioner each slab solver receives each of its slab's unknowns exactly once from the right place of the global vector, and each global unknown is set from exactly one slab solution. This holds for every numbering of the unknowns.",
 ["inputs","configurations"],"every vector, order combination, number of slabs, mesh and degree-of-freedom numbering",
 noimp,
 [S],[("dofmaps of the full, slab, coupling and boundary spaces",S+":SpaceTime.setup_spacetime_finite_elements")],["vectors passed to the slab solvers"],
 [("dofmaps_full","dofs per field and time level",S),("dofmaps_pre","dofs of one slab",S)])
p("S03","The matrix-free operator equals the assembled space-time matrix",
 "For every vector, applying the matrix-free space-time operator gives the same result as multiplying with the assembled space-time matrix of the same problem, for every problem setting for which both are defined.",
 ["inputs","configurations"],"every vector, order combination, number of slabs, mesh, region, stabilisation and problem parameters",
 noimp+" Matrix-free and assembled operators are never compared.",
 [S],[("apply_spacetime_matrix",S+":SpaceTime.apply_spacetime_matrix"),("setup_spacetime_matrix",S+":SpaceTime.setup_spacetime_matrix")],["products with both operators"])
p("S04","The space-time system is a symmetric saddle point problem",
 "The space-time system is symmetric, positive semidefinite on the primal fields and negative definite on the dual fields for positive stabilisation parameters. The system is linear in each stabilisation parameter.",
 ["inputs","configurations"],"every order combination, mesh, region, number of slabs and set of positive stabilisation parameters",
 noimp,
 [S],[("setup_spacetime_matrix, setup_slab_matrix",S)],["assembled matrices, operator products"])
p("S05","The assembled operators discretise the documented stabilised formulation",
 "Every entry of the space-time, slab, first-slab, coupling and interface matrices equals the integral of the stabilised space-time formulation (wave operator and adjoint, data term, dual and primal stabilisation with Nitsche and gradient-jump terms, slab-interface jumps) for the corresponding basis functions.",
 ["inputs","configurations"],"every pair of unknowns and every order combination, mesh type, region, number of slabs, end time, stabilisation and problem parameters",
 noimp+" They check only that a slab matrix is invertible.",
 [S],[("setup_spacetime_matrix",S),("setup_slab_matrix",S),("setup_coupling_matrix_between_slices",S),("setup_scaled_mass_matrix_between_slices",S)],["assembled matrices"])
p("S06","The right-hand side tests the measured data, and only the data",
 "The right-hand side is the data functional: weighted space-time integral over the data region of the exact solution times the test function (by the 4-point Radau rule in time), plus the initial-data terms for well-posed problems. It is linear in the data, does not depend on the solution outside the region, and vanishes for the dual and second fields.",
 ["inputs","configurations"],"every solution, region, order combination, number of slabs and mesh",
 noimp,
 [S],[("setup_rhs",S+":SpaceTime.setup_rhs")],["assembled right-hand side"])
p("S07","The time-marching preconditioner is the exact inverse of the forward system",
 "With exact slab solvers and for problems without jumps in the forward problem, applying the time-marching preconditioner inverts the block lower-triangular forward matrix (slab matrices with the one-sided coupling to the previous slab): multiplying the result with the assembled preconditioning matrix gives back the input.",
 ["inputs","configurations"],"every right-hand side, order combination, number of slabs, mesh, region and parameters",
 noimp+" The one test of marching is skipped.",
 [S],[("pre_time_marching, pre_time_marching_improved",S)],["preconditioner output"])
p("S08","Time marching is causal and calls the slab solvers in order",
 "Each application of a time-marching preconditioner calls the first-slab solver once, for the first slab, and the general slab solver once for each later slab in time order. The solution on a slab depends only on the input on that and earlier slabs, and each slab receives exactly the end-of-slab values of the previous one.",
 ["histories","inputs"],"every right-hand side, number of slabs and sequence of applications",
 noimp,
 [S],[("loop over slabs",S+":SpaceTime.pre_time_marching_improved")],["sequence of slab solver calls"])
p("S09","The optimised time-marching preconditioner equals the reference one",
 "The optimised and the reference time-marching preconditioner give the same result for every right-hand side, also when applications of the two are interleaved. For the setting it does not support the optimised one refuses instead of giving another result.",
 ["inputs","histories"],"every right-hand side, order combination, number of slabs, mesh and interleaving of applications",
 noimp,
 [S],[("pre_time_marching vs pre_time_marching_improved",S)],["preconditioner outputs"])
p("S10","Operators and preconditioners are linear and stateless",
 "The matrix-free operator and the time-marching preconditioners are linear maps which give the same output for the same input regardless of what was applied, assembled, plotted or measured before, overwrite all of the output vector, and do not modify the input vector.",
 ["histories","inputs"],"every sequence of operator, preconditioner, error measurement and right-hand side calls on one solver",
 noimp,
 [S],[("work vectors reused between calls",S+":SpaceTime")],["outputs over a call history"],
 [("b_rhs_pre, vec_slab*, uh_pre, u*_0_pre","work vectors shared by applications",S)])
p("S11","The order of set-up calls does not matter",
 "Every matrix, form and right-hand side that can be requested has the same value whatever documented set-up and getter calls were made before and in whatever order, and whether it was requested with or without the preconditioning variant before. After preparation for the iterative solve all operators it needs are available, for every problem setting.",
 ["histories","configurations"],"every order and repetition of preparation and getter calls, for ill-posed and well-posed problems",
 "All scripts use one fixed order of calls.",
 [S],[("lazily cached matrices and forms",S+":SpaceTime")],["matrices, forms and vectors returned by the getters"],
 [("spacetime_matrix, slab_matrix, SlabMatFirstSlab, SpaceTimeRhs","lazily built caches",S)])
p("S12","The preconditioned iterative solve gives the solution of the space-time system",
 "Solving with GMRES on the matrix-free operator with the time-marching preconditioner gives, up to the tolerance, the solution of a direct solve with the assembled space-time matrix.",
 ["inputs","configurations"],"every problem (orders, mesh, region, solution, stabilisation, number of slabs) small enough to solve directly",
 "The smoke test only checks that no exception is raised.",
 [S,G],[("PETSc wrappers for operator and preconditioner",S)],["iterative and direct solutions"])
p("S13","Reported errors are the errors of the discrete solution",
 "The error norms which are returned and printed (final-time, maximum over time of value and time derivative, space-time norm of the time derivative) are those of the difference between the exact solution and the discrete one made continuous across slab interfaces. They vanish for a discrete solution that equals the exact one, are not finite for one that is not a number somewhere in the measured field, and measuring does not change the vector.",
 ["inputs","configurations"],"every vector, exact solution, order combination, number of slabs, end time and mesh",
 "The smoke test discards the returned errors.",
 [S],[("measured_errors",S+":SpaceTime.measured_errors")],["returned dictionary","printed lines"])
p("S14","The discrete solution converges to the wave under refinement",
 "When the data region satisfies the geometric control condition, the discrete solution converges to the exact wave as mesh and time step are refined, with an error that decreases at least at first order in the final-time norm, and with higher temporal and spatial order the error on a given mesh is smaller.",
 ["inputs","configurations"],"every smooth solution with homogeneous boundary values, order 1..3, and mesh family",
 "No test compares with the exact solution.",
 [S],[("whole pipeline",S)],["errors over refinement levels"])
p("S15","Transfer between coarse and fine grids is exact on common functions",
 "Prolongation reproduces every coarse space-time function exactly on a nested finer mesh and restriction recovers it, field by field and time level by time level. No field, slab or time level is mixed with another, and the input vector is not modified.",
 ["inputs","configurations"],"every coarse vector, nested mesh pair, order combination and number of slabs",
 "No test uses the coarse grid.",
 [S],[("prolongation, restriction",S)],["transferred vectors"])
p("S16","The two-level preconditioner adds a time-marching step to a coarse correction",
 "The two-level preconditioner returns coarse correction plus time marching applied to the residual of that correction, where the coarse correction restricts, solves with the coarse solver and prolongs. The coarse matrix is the space-time matrix of the same problem on the coarse mesh, also when it replaces an earlier one.",
 ["inputs","configurations"],"every right-hand side, nested mesh pair, order combination and number of slabs, with fitted and unfitted regions",
 "No test uses it.",
 [S],[("pre_twolvl, q_op, prepare_coarse_grid_correction",S)],["preconditioner output"])
p("S17","Plots and exported files show the discrete solution that was passed in",
 "The space-time plots show, at each plotted point, the value (or absolute value, time derivative or absolute error) of the given discrete solution there. The exported files, under the name the user gives, contain the absolute error of value and time derivative at the final time, and the mesh.",
 ["inputs","configurations"],"every vector, order combination, number of slabs and plot resolution",
 "The tests do not look at any plot or file.",
 [S],[("plot, plot_error, plot_para_view",S)],["arrays given to the plotting library","XDMF files"])
p("S18","Only the documented dependence of the discretisation on its parameters",
 "The problem of N slabs up to time T is, after scaling, translation invariant in time: every slab but the first has the same matrix and coupling, and permuting, reflecting or renumbering the mesh changes neither the discrete solution nor the reported errors.",
 ["inputs","configurations"],"every renumbering of cells, facets and unknowns of a mesh, mirror image of the problem and number of slabs",
 noimp,
 [S],[("whole discretisation",S)],["solutions and errors as functions"])
p("S19","Solvers are independent of each other and leave their arguments alone",
 "Any number of solvers can be alive and used in turns, sharing argument objects (orders, parameters, stabilisation, data region, solution, mesh) or not. Each gives the matrices, right-hand side, operator and preconditioner applications and errors which it gives when built and used alone, and the shared objects and defaults stay as the user made them.",
 ["histories","configurations"],"every set of solvers and every interleaving of their construction, set-up and use",
 "The tests build one solver.",
 [S],[("SpaceTime construction and set-up",S+":SpaceTime")],["matrices, vectors and errors of each solver","argument objects"])
p("S20","Long computations with one solver run in bounded memory",
 "Calls which only compute (operator and preconditioner applications, transfers between the meshes, error measurement, repeated getters) may be repeated any number of times: none leaves a slab vector's worth of memory behind per call. A solver which the user drops is released.",
 ["histories"],"every number of repetitions of every operation, for every problem size",
 "The tests apply each operation a few times on tiny meshes.",
 [S],[("pre_time_marching, apply_spacetime_matrix, transfers, measured_errors, getters",S+":SpaceTime")],["memory in use after each call","liveness of dropped solvers"])
p("S21","A failure in the middle of an operation surfaces and does no lasting damage",
 "If a slab solver, coarse solver, solution or data-region function or a call of the finite element library fails (exception, interrupt, no memory) in the middle of an operation of a solver object, the failure reaches the caller. Once its cause is gone, repeating the operation, and every other operation of the same object, gives what an object that never saw a failure gives.",
 ["histories","crash points"],"every point of failure in every operation, every kind of failure and every history of operations and failures",
 "No test lets anything fail.",
 [S],[("set-up, getters, operator and preconditioner applications, error measurement and export",S+":SpaceTime")],["errors raised to the caller","results of later operations"])
p("D01","The shipped sample problems are genuine waves with matching data",
 "In each shipped example the sample solution satisfies the wave equation with homogeneous Dirichlet values at all times, its stated time derivative is its time derivative, and the data-region functions are 1 exactly on the documented region and 0 elsewhere, for points in any number and order.",
 ["inputs"],"every time and point of the domain (including region borders) in 1, 2 and 3 dimensions",
 "The smoke test runs the 1D problem once and checks nothing.",
 D,[("sample_sol, dt_sample_sol, omega_ind*","src/dxss/solve_*.py")],["values of the functions"])
p("D02","All solver back ends of the examples give the same solution",
 "The examples' sparse-direct, PETSc and all-at-once direct back ends compute the same discrete solution up to the tolerance. For each slab the solver set by the example solves with the matrix of that slab (the first slab has its own). The slab solver adapters return the solution of the matrix they were given for every right-hand side, without changing it.",
 ["configurations","inputs"],"every back end, example and right-hand side",
 "Only the back end that happens to be installed is run.",
 D,[("solve_problem, PySolver, get_lu_solver","src/dxss/solve_*.py")],["solution vectors"])
p("D03","A missing optional direct solver degrades gracefully",
 "Whether or not the optional sparse-direct solver can be imported, each example imports and solves; without it the PETSc back end is selected and constructing the adapter warns.",
 ["configurations"],"all examples, with the optional package present, absent or failing to import",
 "The existing tests need DOLFINx and cannot run here; they check only the warning.",
 D,[("try/except import","src/dxss/solve_*.py")],["selected back end, warnings"])
p("D04","The examples report on the solution which they computed",
 "Whatever an example measures, draws or exports is the solution of that run. Errors are measured and printed, and (3D) the error is exported to a file named after the order, if and only if this is asked for, in every run and with every back end; the printed errors are those of the solution of the space-time system. The printed elapsed time is that of preparing the slab solvers and solving, without the error measurement; the iterative back ends print a convergence history that ends below the tolerance, and the script prints the peak memory of its process in Gb.",
 ["configurations","histories"],"every example, back end, with and without error measurement, repeated runs, as a script and as a module",
 "The tests look at no output of an example.",
 D,[("solve_problem and the main part of each example","src/dxss/solve_*.py")],["printed text","vectors given to measured_errors, plot_error, plot_para_view","files written"])
p("M01","Generated meshes are conforming and cover the stated domain exactly once",
 "Every mesh generator returns a conforming mesh of non-degenerate cells without overlaps or gaps whose union is the documented domain (unit square, unit cube, or the square of side three), for every size factor (for quadratic curved cells: every factor up to 2, beyond which the disc is not resolved) and refinement count and, where the generator has position parameters, all positions inside the domain in the order in which the geometry needs them.",
 ["inputs","configurations"],"every generator, size factor, refinement count and position parameter",
 "One generator is called with one size factor, only as a fixture.",
 [M],[("gmsh geometry and mesh conversion",M)],["cells and points of the returned meshes"])
p("M02","Generated meshes are fitted to the documented subregions",
 "No cell of a generated mesh crosses the border of a subregion it is documented or parametrised to resolve (data region, target region, material interface), so cell-wise constant region functions represent these exactly (curved borders up to the geometry order).",
 ["inputs","configurations"],"every generator, size factor, refinement level and interface position",
 "No test checks it.",
 [M],[("occ fragment/cut",M)],["cells and points of the returned meshes"])
p("M03","Mesh hierarchies are nested refinements of the requested depth",
 "A hierarchy requested with n refinements has n+1 meshes (n for the list of separately generated meshes), ordered from coarse to fine, each a refinement of the previous one whose cells lie in exactly one coarser cell and which halves every edge; halving the size factor never gives a coarser mesh, and the list of separately generated meshes equals single meshes of the halved factors.",
 ["inputs"],"every generator and number of refinements",
 "No test checks a hierarchy.",
 [M],[("refine loops",M)],["returned mesh lists"])
p("M04","Mesh generators can be called repeatedly in any order",
 "Each generator leaves no mesh-generator session or model behind, so that calling any sequence of generators, with any parameters, gives for each the same mesh as a first call in a fresh process. This includes calls that fail: the failure reaches the caller, and later calls are not affected by it.",
 ["histories","crash points"],"every sequence of generator calls in one process, and every point at which a call may fail",
 "The tests call one generator once.",
 [M],[("gmsh.initialize/finalize",M)],["gmsh session state","returned meshes"])
p("M05","Mesh generation works with the supported DOLFINx versions",
 "Every mesh generator works with the interface of the supported DOLFINx release series 0.6; the generator for data all around the square, which provides for release 0.7 as well, works with both and gives the same meshes.",
 ["configurations"],"every generator and size parameter under 0.6, the all-around generator under 0.6 and 0.7",
 "The tests run against whichever version is installed.",
 [M],[("version switch for incident entities",M)],["returned meshes"])
p("M06","Mesh files hold the returned mesh with marked subregions",
 "Every two-dimensional mesh generator leaves in mesh.xdmf and (linear, straight-edged) in mesh.msh of the working folder exactly the cells of the mesh the call returns (the coarsest one of a hierarchy, the last one of a list of separately generated meshes), replacing what earlier calls wrote. In mesh.msh, and for the generators which read their mesh from the file also in mesh.xdmf, the cells carry markers: with the convex and non-convex data layouts those of the data region 1, those of the rest of the target region 2 and those of the remainder 3; with the other ones each connected piece a number of its own, counted from 1, so that no marker is used on both sides of an interface. The edges marked in mesh.msh (mt.xdmf) are exactly those of the border of the domain, with marker 1 (the generator for data at the bottom marks none).",
 ["inputs","histories"],"every generator which writes files, all its parameters, after any other calls in the same folder",
 "No test opens the files.",
 [M],[("physical groups, gmsh.write, meshio.write, XDMFFile.write_mesh",M)],["mesh.xdmf","mt.xdmf","mesh.msh"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
