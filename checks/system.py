"""Properties decided on runs of the whole program in simulated worlds."""
import vbuild

C1 = dict(ndim=1)
C2 = dict(ndim=2)
C3 = dict(ndim=3)
S1 = dict(ndim=1, geom="Spherical")
S2 = dict(ndim=2, geom="Spherical")
S3 = dict(ndim=3, geom="Spherical")


def rad(c):
    return dict(c, eos="RadGas")


def grav(c, g):
    return dict(c, gravity=g)


def name(c):
    return "-".join(str(c[k]) for k in ("ndim", "geom", "eos", "gravity", "setup", "san") if k in c).replace("Spherical", "sph").replace("RadGas", "rad")


def solver(ctx, driver, configs, argsets=((),), san="plain", min_eval=1, with_main=True, timeout=None, workers=6, **kw):
    """one build per configuration of the whole code with harness/<driver>.cpp, run with every argument set"""
    jobs = []
    for c in configs:
        c = dict(c)
        c.setdefault("san", san)
        label = "%s-%s" % (driver, name(c))

        def mk(c=c, label=label):
            return vbuild.build_solver(label, [driver + ".cpp"], with_main=with_main, **c)

        for a in argsets:
            lab = label + "".join("-" + x.split("=", 1)[1] for x in a if "/" not in x)
            jobs.append((mk, list(a), lab, dict(min_eval=min_eval, timeout=timeout, **kw)))
    ctx.run_many(jobs, workers)


WORLD = "message passing, parallel kernels and the data interface are the stand-ins of /verif/shim (simulated ranks in one process)"


def c09(ctx):
    ctx.rule = ("random boxes, decompositions (1-8 ranks), ghost widths, 0-10 scalars and file prefixes; after every step the state of every global cell is "
                "recorded from the solver and compared element by element with the file, and every transfer of every rank is accounted; "
                "non-trivial: distinct configurations")
    ctx.assumptions = [WORLD, "more than ten scalars are outside the data description shipped with the code and are not explored"]
    cfg = [C1, C2, C3, S2, rad(C3)] if not ctx.thorough else [C1, C2, C3, S1, S2, S3, rad(C1), rad(C2), rad(C3)]
    solver(ctx, "t_output", cfg, [("what=files",)], min_eval=10)


def c11(ctx):
    ctx.rule = ("random output periods in iterations and time, first output times, end times and iteration limits; the rules are replayed over the "
                "observed sequence of steps with a reference CFL step, and file numbers, contents and the index file are compared; outputs continued as if after up to 2^31 iterations and 10^8 outputs; "
                "non-trivial: runs of more than one step")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_output", [C1, C2, C3] if not ctx.thorough else [C1, C2, C3, rad(C1), rad(C2)], [("what=cadence",)], min_eval=10)
    solver(ctx, "t_output", [C1] if not ctx.thorough else [C1, C2, C3], [("what=history",)], min_eval=10)


def c12(ctx):
    ctx.rule = ("random global sizes, ghost widths, 1-24 ranks and requested process counts (complete, partial, none), and the meshes that the ranks of "
                "whole runs really use; every rank's box and coordinates are compared with the global mesh; non-trivial: more than one rank")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_mesh", [C1, C2, C3, S2] + ([S1, S3] if ctx.thorough else []), [("what=partition",)], min_eval=100)


def c25(ctx):
    ctx.rule = "random meshes, regular to strongly irregular, including the axis and the centre, against extended-precision geometry; non-trivial: distinct meshes"
    solver(ctx, "t_mesh", [C1, C2, C3, S1, S2, S3], [("what=geometry",)], min_eval=300)


def c40(ctx):
    ctx.rule = ("random irregular meshes over 1-8 ranks, ghost widths 2-4, poisoned ghost cells and, in some, one invalid cell; sums and minima of all ranks against extended "
                "precision, every cell of every array a fill, profile or temperature touches bit by bit; non-trivial: more than one rank")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_mesh", [C1, C2, C3, S2, rad(S3)] + ([S1, S3, rad(C2)] if ctx.thorough else []), [("what=domain",)], min_eval=100)


def c13(ctx):
    ctx.rule = ("random boxes down to as many cells as ghosts, 1-4 ghosts, 1-8 ranks, 0-4 scalars, host and device buffers, message and kernel orders; every "
                "owned and inner ghost cell of every field is compared bit by bit with the wrapped global field; non-trivial: more than one rank")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_bound", [C1, C2, C3, S2] + ([S1, S3] if ctx.thorough else []), [("what=halo",)], min_eval=100)


def c14(ctx):
    ctx.rule = ("random choice of condition per face (user conditions included), priority lists and decompositions; every ghost cell of every field "
                "is compared bit by bit with the global model, at unit level and inside whole runs; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD, "each rank holds at least as many cells as ghosts"]
    solver(ctx, "t_bound", [C1, C2, C3, S3] + ([S1, S2, rad(C2)] if ctx.thorough else []), [("what=faces",)], min_eval=100)


def c17(ctx):
    ctx.rule = ("random adiabatic index, mean weight, density and temperature over tens of decades, against extended-precision solutions of the defining "
                "equations and the isentropic derivative; non-trivial: distinct states")
    ctx.assumptions = ["the tolerance of the radiative gas is its documented absolute solver tolerance (1e-6 K) after its last Newton step"]
    solver(ctx, "t_phys", [C1, rad(C1)], [("what=eos",)], min_eval=1000, with_main=False)


def c18(ctx):
    ctx.rule = "random states, velocities up to Mach 1e6, array boxes, ghost widths and ranges; non-trivial: distinct states and arrays"
    solver(ctx, "t_phys", [C1, C2, C3, rad(C3)] + ([rad(C1), rad(C2), S3] if ctx.thorough else []), [("what=conv",)], min_eval=1000, with_main=False)


def c19(ctx):
    ctx.rule = "random pairs of states (equal, moderate jumps, contacts, strong jumps, supersonic), three solvers, every direction; non-trivial: unequal states"
    solver(ctx, "t_phys", [C1, C2, C3, rad(C3)] + ([rad(C1), rad(C2)] if ctx.thorough else []), [("what=flux",)], min_eval=1000, with_main=False)


def c20(ctx):
    ctx.rule = ("random slopes; random, linear, constant and oscillating fields on regular and irregular meshes with 2-4 ghost cells, every named reconstruction; "
                "non-trivial: non-constant fields")
    solver(ctx, "t_phys", [C1, C2, C3, S2, rad(C2)] + ([S1, S3, rad(C3)] if ctx.thorough else []), [("what=recon",)], min_eval=1000, with_main=False)


def c21(ctx):
    ctx.rule = ("states in which one chosen cell of one chosen rank moves fastest, per direction, and whole runs of random configurations; the step is compared "
                "with an extended-precision maximum over all cells; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_kern", [C1, C3, S1, S2, S3, rad(C2)] + ([C2, rad(C3)] if ctx.thorough else []), [("what=dt",)], min_eval=200)


def c24(ctx):
    ctx.rule = ("random masses, gravity vectors, density fields, meshes and decompositions; every acceleration value is compared with an extended-precision sum "
                "over the global density, the momentum gained in one step with the prescribed field, and steps in mid-run with fresh runs from the same state; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD, "self-gravity is used with whole radii on each rank, as the code demands"]
    cfg = [C2, C3, S1, grav(S2, "Point_mass"), grav(S1, "Internal_mass"), grav(S3, "Internal_mass")]
    solver(ctx, "t_kern", cfg + ([C1, grav(S1, "Point_mass"), grav(S3, "Point_mass"), grav(S2, "Internal_mass")] if ctx.thorough else []), [("what=gravity",)], min_eval=150)
    solver(ctx, "t_runA", [C1, C2, C3, grav(S1, "Internal_mass"), grav(S2, "Point_mass"), grav(S3, "Internal_mass")]
           + ([rad(C2), grav(S1, "Point_mass"), grav(S3, "Point_mass"), grav(rad(S2), "Internal_mass")] if ctx.thorough else []), [("what=gravity",)], min_eval=20)


def c26(ctx):
    ctx.rule = ("random histories of host and device reads, writes and overwrites through original and read-only handles of data views, against a model that keeps "
                "both sides, and whole runs on memory spaces that do not alias; non-trivial: distinct histories and configurations")
    ctx.assumptions = [WORLD, "host code that breaks the declared access (writing through a read view) is outside the property"]
    solver(ctx, "t_dual", [C2, C3, grav(S1, "Internal_mass"), rad(S2)] + ([C1, S3, grav(S3, "Internal_mass")] if ctx.thorough else []), min_eval=100)


def c31(ctx):
    ctx.rule = "random times from zero to many decay times, steps, densities and compositions on 1-8 ranks, against the extended-precision decay chain; non-trivial: distinct cases"
    ctx.assumptions = [WORLD]
    solver(ctx, "t_kern", [C1, C2, C3, S1] + ([S2, S3, rad(C2)] if ctx.thorough else []), [("what=heat",)], min_eval=100)


def c32(ctx):
    ctx.rule = "random states around the threshold, thresholds, meshes and velocities, against a per-cell reference; whole runs with the fix on and off; non-trivial: distinct cases"
    ctx.assumptions = [WORLD]
    solver(ctx, "t_kern", [C1, C2, C3, S2, rad(C2)] + ([S1, S3] if ctx.thorough else []), [("what=pf",)], min_eval=150)


def c36(ctx):
    ctx.rule = ("random smooth flows (straight uniform motion included), domains, stretched meshes, solvers and gravity; the rate of change of every conserved "
                "variable over one step, and of every face state over the half step, on two meshes against the differentiated exact fluxes; non-trivial: distinct flows")
    ctx.assumptions = [WORLD, "cells next to the boundary of the domain are excluded", "errors below 1e-3 of the scale of a variable are not told from truncation"]
    cfg = [C1, C2, C3, S1, S2, S3, rad(C2), rad(S3), grav(S2, "Point_mass")]
    solver(ctx, "t_eqs", cfg + ([rad(C3), rad(S1), grav(S1, "Point_mass"), grav(S3, "Point_mass")] if ctx.thorough else []), min_eval=8, workers=8)


def c35(ctx):
    ctx.rule = ("Riemann problems built outwards from random star states (shocks, rarefactions, isolated contacts, transverse velocities, scalars), along a random axis and "
                "direction, and oblique entropy and simple acoustic waves; every output field against the exact solution on two meshes; non-trivial: distinct problems")
    ctx.assumptions = [WORLD, "jumps of density up to 2.2 per wave; the low Mach solver only at subsonic speeds and CFL numbers up to 0.4, beyond which it is unstable by construction"]
    solver(ctx, "t_conv", [C1, rad(C1), C2, C3] + ([rad(C2), rad(C3)] if ctx.thorough else []), [("group=riemann",), ("group=smooth",)], min_eval=4, workers=8)


def c15(ctx):
    ctx.rule = ("random complete configurations in closed boxes; totals in extended precision over the state recorded after every step, against the initial ones; "
                "the reported mass against the files; non-trivial: distinct configurations that made a step")
    ctx.assumptions = [WORLD, "ghost cells of user meshes are as wide as the cells they mirror", "scalars start within [0,1]",
                       "in spherical coordinates the gas next to walls of finite area is at rest"]
    solver(ctx, "t_runA", [C1, C2, C3, S1, S2, S3] + ([rad(C1), rad(C2), rad(C3), rad(S2)] if ctx.thorough else [rad(C2)]), [("what=conserve",)], min_eval=20)


def c16(ctx):
    ctx.rule = ("random complete configurations (every boundary condition, gravity, heating, pressure fix, scalars) run on one rank and on two other layouts with "
                "random rank numbering, message timing and kernel order; all output fields compared bit by bit; non-trivial: more than one layout")
    ctx.assumptions = [WORLD, "self-gravity sums over ranks: compared to 1e-10 of the field's scale"]
    solver(ctx, "t_runA", [C1, C2, C3, S3, grav(S2, "Internal_mass")] + ([S1, S2, rad(C2), rad(C3), grav(S3, "Internal_mass"), grav(S3, "Point_mass")] if ctx.thorough else [rad(C2)]),
           [("what=layout",)], min_eval=15)


def c22(ctx):
    ctx.rule = ("uniform states at rest with random conditions on the faces, and moving at Mach 1e-6 to 50 in Cartesian boxes, on regular and irregular meshes; every "
                "cell after every step against the initial state; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_runA", [C1, C2, C3, S1, S2, S3] + ([rad(C1), rad(C2), rad(C3), rad(S3)] if ctx.thorough else [rad(C2)]), [("what=rest",)], min_eval=20)


def c23(ctx):
    ctx.rule = ("random flows with 1-5 scalars (noise, uniform, blocks of 0 and 1, twins), rerun with a random selection of the same scalars and with none; scalars "
                "compared bit by bit between runs and with their bounds; smooth profiles in uniform flows of random direction against their exact translation on two meshes; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_runA", [C1, C2, C3, S2] + ([S1, S3, rad(C2), rad(C3)] if ctx.thorough else [S3]), [("what=scalars",)], min_eval=10)


def c30(ctx):
    ctx.rule = ("random configurations against their image under a random permutation and reflection of the axes (reflection of the angles in spherical coordinates), "
                "and one-dimensional problems along a random axis against the one-dimensional program with the same steps; non-trivial: a map other than the identity")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_runA", [C1, C2, C3, S2, S3] + ([rad(C2), rad(C3)] if ctx.thorough else []), [("what=symmetry",)], min_eval=20)
    for fam in ([C1, C2, C3], [S1, S2, S3]) + (([rad(C1), rad(C2), rad(C3)],) if ctx.thorough else ()):
        d = ctx.subdir("profiles-" + name(fam[0]))
        keep = ctx.replay_case
        if keep and "reduce" in keep.get("driver", ""):
            ctx.replay_case = None  # the reference is needed again
        solver(ctx, "t_runA", fam[:1], [("what=reduce", "profiles=" + d)], min_eval=20)
        ctx.replay_case = keep
        solver(ctx, "t_runA", fam[1:], [("what=reduce", "profiles=" + d)], min_eval=20)


def c10(ctx):
    ctx.rule = ("random complete configurations (gravity, heating, scalars, moving grid, both output periods) restarted from random outputs, and from outputs of the "
                "restarted run, on other layouts; every later file against that of the uninterrupted run; outputs whose counters and time are advanced; restart files of other meshes; non-trivial: distinct restarts")
    ctx.assumptions = [WORLD, "the pressure fix, which has a threshold, is off"]
    solver(ctx, "t_runB", [C1, C2, C3, S2, grav(S3, "Internal_mass")] + ([S1, S3, rad(C1), rad(C2), rad(C3)] if ctx.thorough else [rad(C2)]), [("what=restart",)], min_eval=20)
    solver(ctx, "t_output", [C2] if not ctx.thorough else [C1, C2, C3], [("what=history",)], min_eval=10)


def c27(ctx):
    ctx.rule = ("random complete configurations down to as many cells as ghosts under AddressSanitizer and UndefinedBehaviorSanitizer, with the iterations of every kernel in "
                "three orders and all outputs compared bit by bit; kernels on four threads under ThreadSanitizer; a sample under memcheck for uninitialised values; "
                "every run is also restarted; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD, "sums over cells (gravity of the gas itself) are compared to 1e-10 between orders"]
    cfg = [rad(C2), C3, S3, grav(S2, "Internal_mass")] if not ctx.thorough else [C1, C2, C3, S1, S2, S3, rad(C1), rad(C2), rad(C3), rad(S3), grav(S1, "Internal_mass"), grav(S2, "Internal_mass"), grav(S3, "Point_mass")]
    solver(ctx, "t_runB", cfg, [("what=safety",)], san="asan", min_eval=6)
    solver(ctx, "t_runB", [C2, grav(S1, "Internal_mass")] + ([C1, C3, S2, S3, rad(C3)] if ctx.thorough else []), [("what=safety", "threads=4")], san="tsan", min_eval=6)
    solver(ctx, "t_runB", [C3, grav(S2, "Internal_mass")] + ([C1, C2, S3, rad(C2)] if ctx.thorough else []), [("what=safety", "n=2")], min_eval=2, workers=6,
           wrap=("valgrind", "-q", "--error-exitcode=97", "--undef-value-errors=yes", "--leak-check=no"))


def c28(ctx):
    ctx.rule = ("NaN, negative and zero energies and undefined densities put into a random cell at a random step or at the start, and violent flows; every recorded state is "
                "judged in extended precision and compared with whether, when and how each rank stopped and with the dump; non-trivial: runs that stopped")
    ctx.assumptions = [WORLD, "energies within rounding of zero may go either way"]
    solver(ctx, "t_runB", [C1, C2, C3, S3, rad(C2)] + ([S1, S2, rad(C1), rad(C3)] if ctx.thorough else []), [("what=energy",)], min_eval=15)


def c29(ctx):
    ctx.rule = ("random shift histories, limits and layouts; state before each shift recorded from the solver and compared bit by bit, one cell further, with the output after "
                "it; nodes of every rank; the run after the limit against a run with a zero-gradient outer boundary; non-trivial: runs with a shift")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_runB", [C1, C2, C3, S1, S3] + ([S2, rad(C2), grav(S2, "Internal_mass")] if ctx.thorough else [grav(S2, "Internal_mass")]), [("what=shift",)], min_eval=10)
    solver(ctx, "t_setups", V1D, [("what=criterion",)], min_eval=10)


def setup(c, n):
    return dict(c, setup=n)


V1D = [setup(grav(S1, "Point_mass"), "v1d"), setup(grav(S3, "Internal_mass"), "v1d")]


def c33(ctx):
    ctx.rule = ("every shipped setup and every shipped input: random parameters, meshes and layouts, and the shipped values; the initial output of whole runs is compared cell by "
                "cell with the profile evaluated from the cell's global position, bit by bit between layouts, and the atmospheres are checked to stay at rest; "
                "profile files of other sizes must be refused; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD, "the random amplitudes of the 3D Rayleigh-Taylor setup come from a reproducible source put in the place of the system's",
                       "large shipped meshes are run with fewer cells"]
    quick = [setup(C1, "advection_gap"), setup(C1, "advection_sinus"), setup(grav(S1, "Point_mass"), "eq_hydro_sphe"), setup(C2, "gresho_vortex"), setup(C1, "heat_nickel"),
             setup(C2, "implosion_test"), setup(C2, "kelvin_helmholtz"), setup(C2, "rayleigh_taylor"), setup(C3, "rayleigh_taylor3d"), setup(C1, "sedov1d"), setup(S1, "sedov1d"),
             setup(C2, "sedov2d"), setup(S3, "sedov3d"), setup(C1, "shock_tube"), setup(S1, "shock_tube"), setup(S3, "shock_tube"), setup(C1, "shock_wall"),
             setup(rad(C1), "shock_wall"), setup(C1, "stratified_atm")] + V1D
    more = [setup(C2, "advection_gap"), setup(C3, "advection_gap"), setup(C3, "advection_sinus"), setup(grav(S3, "Point_mass"), "eq_hydro_sphe"), setup(C3, "heat_nickel"),
            setup(C3, "shock_tube"), setup(C2, "shock_tube"), setup(C3, "implosion_test"), setup(C2, "stratified_atm"), setup(C3, "shock_wall"), setup(rad(S3), "shock_tube"),
            setup(rad(C1), "sedov1d"), setup(grav(S3, "Point_mass"), "v1d"), setup(grav(S1, "Internal_mass"), "v1d"), setup(grav(S2, "Point_mass"), "v1d")]
    solver(ctx, "t_setups", quick + (more if ctx.thorough else []), [("repo=" + vbuild.REPO,)], min_eval=30)
    if ctx.thorough:
        solver(ctx, "t_setups", quick, [("repo=" + vbuild.REPO, "scale=0.1")], san="asan", min_eval=3)


def c34(ctx):
    ctx.rule = ("every accepted name of every kind of component in random configurations, each step reproduced to 1e-11 by a reference of the scheme with the named boundary "
                "conditions, limiter, flux and mesh; mutated names must end the run before its first step; non-trivial: distinct configurations and names")
    ctx.assumptions = [WORLD, "the numerical fluxes themselves are the business of C19"]
    solver(ctx, "t_runB", [C1, C2, C3], [("what=names",)], min_eval=80)


def c37(ctx):
    ctx.rule = ("random configurations on up to 12 ranks: plain, moving grid, restarted, and ended by an invalid energy on one rank, a time in the past, a wall clock that differs between ranks, a shift window that does not fit, unknown names or missing "
                "files, each under two schedules; every message passing call is matched by the stand-in; non-trivial: more than one rank")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_runB", [C1, C2, C3, grav(S2, "Internal_mass")] + ([S1, S3, rad(C2), grav(S3, "Internal_mass")] if ctx.thorough else [S3]), [("what=protocol",)], min_eval=15)
    solver(ctx, "t_setups", V1D, [("only=protocol", "what=criterion")], min_eval=10)
    solver(ctx, "t_setups", [setup(C1, "sedov1d"), setup(C3, "rayleigh_taylor3d")], [("only=protocol", "scale=0.5")], min_eval=5)


def c38(ctx):
    ctx.rule = ("random configurations, layouts, restarts and moving grids under a clock of the harness's own; every line the run prints about itself is parsed and compared with "
                "the configuration, the recorded steps and the files written; other data descriptions given on the command line; runs that cannot start must end with a code "
                "other than zero on every rank, say why and claim nothing; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD, "steady_clock::now is replaced, so that durations are known"]
    solver(ctx, "t_report", [C1, C2, C3, S1, rad(C1), grav(S2, "Internal_mass")] + ([S2, S3, rad(C3), grav(S1, "Point_mass")] if ctx.thorough else []), [()], min_eval=60)


def c39(ctx):
    ctx.rule = ("random configurations in which any mix of mesh, faces, step and shift criterion belongs to the user, with layouts, pressure fix, moving grids up to their limit and "
                "restarts; each rank's sequence of calls is parsed against the documented order, the arrays handed over are compared bit by bit from call to call, and with the outputs; "
                "setups without these parts must end the run; non-trivial: distinct configurations")
    ctx.assumptions = [WORLD]
    solver(ctx, "t_parts", [C1, C2, C3, grav(S2, "Internal_mass"), rad(S1), setup(C1, "shock_tube")] + ([S3, rad(C3), grav(S1, "Point_mass"), setup(S3, "shock_tube")] if ctx.thorough else []),
           [()], min_eval=10)
