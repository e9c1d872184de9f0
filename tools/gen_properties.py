#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because the JSON lines are long)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


NOBUILD = "the solver is not even compiled by the tests that run here (Kokkos and PDI are absent); upstream has a handful of fixed-size unit tests per kernel, each on one grid and one rank"

prop("C01", "INI text is delivered to the application exactly as its grammar says",
     "Every name=value (or name:value) line of a configuration text is reported exactly once, in file order, under the section in force, with surrounding blanks, full-line comments, inline comments and a leading byte-order mark removed, and an indented continuation line reported as a further value of the same name. The result is 0 if every line is well formed and otherwise the number of the first malformed line, and the lines after a malformed one are still processed unless stopping at the first error was requested.",
     ["inputs", "configurations"], "every text made of sections, pairs, comments, continuations, blank and malformed lines, in each compile-time configuration of the parser and for each handler verdict",
     "unit tests compare a dozen fixed files with a stored log; the grammar is quantified over all texts and their combinations (continuation after an error, comment after a quoted value, over-long names, line limits)",
     ["vendor/inih/src/ini.c", "vendor/inih/include/inih/ini.h"],
     [("line loop, section/name state, strchr-with-comment scan", "vendor/inih/src/ini.c:ini_parse_stream")],
     ["sequence of handler callbacks", "return code"])

prop("C02", "Parsing any bytes is memory safe and independent of how they are supplied",
     "For any byte sequence, parsing never reads or writes outside its buffers, never executes undefined behaviour and always terminates. The same bytes supplied as a named file, an open file, a string or a caller-provided line reader give the same sequence of reported pairs and the same result code. Names and section headings longer than the documented limits are truncated or reported as errors, never stored past the limit.",
     ["inputs", "configurations"], "every byte string up to several buffer sizes, including embedded NUL, missing final newline, CR/LF mixes and lines around the internal buffer limits; every entry point",
     "unit tests use well-behaved short files; buffer-boundary behaviour depends on line lengths and byte values the tests do not vary, and they run without sanitizers",
     ["vendor/inih/src/ini.c", "vendor/inih/src/INIReader.cpp"],
     [("ini_reader_string, strncpy0, bounded buffers", "vendor/inih/src/ini.c")],
     ["sanitizer reports", "callback sequences across entry points"])

prop("C03", "Typed configuration lookups return the exact value, the default, or an error",
     "Looking up a key (case-insensitively) gives: the stored text for strings; the exact number for any decimal or 0x-hexadecimal integer that fits the requested type and the nearest double for any real literal; true/yes/on/1 and false/no/off/0 in any letter case for booleans; and the caller's default when the key is absent or empty. A value that does not start with a number, does not fit the requested type (a negative value never fits an unsigned one), or is not a boolean word raises an error instead of yielding a number or the default. Repeated keys accumulate line by line.",
     ["inputs"], "every stored value text, every section/key spelling, every integer width and default",
     "existing tests cover a few keys of one sample file; overflow boundaries per integer width, exponents, signs, blanks, hexadecimal and case folding are quantified over all texts",
     ["vendor/inih/src/INIReader.cpp", "vendor/inih/include/inih/INIReader.hpp"],
     [("INIReader::Get*, MakeKey", "vendor/inih/src/INIReader.cpp")],
     ["return values and exceptions of the reader"])

prop("C04", "Every run parameter comes from its documented key or its default",
     "Each run parameter (grid sizes and bounds, time interval, CFL number, output control, numerical choices, gravity, gas constants, boundary choice and priority, scalars, fixes, process layout) takes exactly the value written under its own section and key, and its documented default when that key is absent. No key influences any other parameter, except that the default time of the first output is the initial time plus the output interval.",
     ["inputs", "configurations"], "every subset of keys present, with every value representable in the file",
     "no test constructs the parameter block at all; swapped keys or defaults only show for particular combinations of present and absent keys",
     ["src/utils/param.cpp", "src/utils/param.hpp", "inputs/example_init.ini"],
     [("Param constructor", "src/utils/param.cpp")],
     ["all parameter values after construction from a configuration text"])

prop("C05", "Checked integer conversion preserves the value or throws",
     "Converting an integer between any two integer types returns a value mathematically equal to the argument when it is representable in the target type. Otherwise it throws a standard runtime error; it never wraps, truncates or changes sign silently.",
     ["inputs"], "every pair of signed and unsigned integer types from 8 to 64 bits and every value",
     "the unit tests try a few values for a few type pairs; sign-change and boundary values over all pairs are not sampled",
     ["src/utils/int_cast.hpp"], [("range comparison before the cast", "src/utils/int_cast.hpp")],
     ["returned value or exception"])

prop("C06", "Diagnostic key/value lines are lossless and aligned",
     "Each diagnostic entry is printed as exactly one line made of the name padded to its column and the value padded to its column with dots, where name and value appear in full even when longer than their columns and numbers read back as the stream would print them. Printing does not change how later text and numbers written without a width of their own appear on the stream, and does not alter the values printed.",
     ["inputs", "histories"], "every name and value (strings, integers, reals, booleans) and every prior stream state and sequence of prints",
     "two fixed examples are tested; long names or values, prior stream formatting and sequences of entries are not",
     ["src/utils/print_info.hpp"], [("setw/setfill formatting", "src/utils/print_info.hpp")],
     ["the text produced on the stream"])

prop("C07", "HDF5 handles are released exactly once and wrong extents are refused",
     "A scoped HDF5 handle holds a valid identifier, refuses to exist for an invalid one, and is closed exactly once when its scope ends by return or by exception, so that no object of the file stays open. Checking a dataset succeeds if and only if the dataset exists with exactly the expected number of dimensions and extents; otherwise an error is raised and nothing is leaked.",
     ["inputs", "fault_sequences"], "every dataset rank and shape against every expectation, missing or foreign objects, failures at each step",
     "no test exists for the handle wrapper or the extent check; leaks show only on error paths",
     ["src/io/io_hdf5.hpp", "src/io/io.cpp"], [("RaiiH5Hid, check_extent_dset", "src/io/io_hdf5.hpp")],
     ["open-object counts of the HDF5 library, number of close calls, exceptions"])

prop("C08", "The message-passing session is opened and closed exactly once",
     "The scoped session initialises message passing exactly once on construction, passing the program arguments through, and finalises it exactly once when the scope ends, whether normally or through an exception. No message-passing call happens before initialisation or after finalisation, in any run of the program.",
     ["histories", "fault_sequences", "configurations"], "every way a run ends (normal end, configuration error, error during initialisation, invalid state), on every number of ranks",
     "no test observes the session; misuse only shows on error paths or with several ranks",
     ["src/mpi_scope_guard.cpp", "src/mpi_scope_guard.hpp", "src/main.cpp"], [("constructor/destructor pair", "src/mpi_scope_guard.cpp")],
     ["log of initialise/finalise calls per rank"])

prop("C09", "An output file holds every interior cell once, at its global position",
     "After an output, each field of the file has the global interior shape and each of its elements was written exactly once, by the rank that owns the cell, with the value the solver holds for that global cell; node coordinates, counters, time and adiabatic index are those of the run, the build information attached to the file is that of the program. No ghost cell, stale value or other rank's cell reaches a file, for any number of scalars and any decomposition, also when a file of that name was left by an earlier run, and the stored temperature, pressure, velocity and energy of a cell are mutually consistent with the equation of state.",
     ["inputs", "configurations", "schedules"], "every grid size, ghost width, dimension, number of passive scalars, rank layout and rank interleaving",
     NOBUILD + "; index-order and offset errors only show for non-cubic grids, uneven decompositions or more than one scalar",
     ["src/io/io.cpp", "src/io/config.yaml.cpp"], [("write_pdi and the decl_hdf5 selections", "src/io/io.cpp, src/io/config.yaml.cpp")],
     ["real HDF5 files and the log of hyperslabs written by each rank"])

prop("C10", "A restarted run continues as if it had not been interrupted",
     "Restarting from an output file resumes at the stored time, iteration and output counters with the stored density, velocity, pressure, scalars and mesh, on any rank layout. The continued run produces the same later outputs, with the same numbers, iterations and times, as the uninterrupted run, up to floating-point rounding of the conversion between stored and evolved variables, also when the first run was itself stopped by its iteration limit, whose last output is what a longer run holds at that iteration. A restart file whose mesh extents do not match the configuration is refused.",
     ["crash_points", "inputs", "configurations", "histories"], "every output of a run as a restart point, every layout of ranks before and after, every output schedule",
     NOBUILD + "; restart is never exercised by tests at all",
     ["src/io/io.cpp", "src/io/config.yaml.cpp", "src/main.cpp"], [("read_pdi, restart branch of the main program", "src/io/io.cpp:read_pdi, src/main.cpp")],
     ["files of the continued run compared with those of the uninterrupted one"])

prop("C11", "Outputs happen when requested, are numbered in sequence and fully indexed",
     "With an iteration period an output is made at the first iteration reaching each multiple of the period; with a time period the step is shortened so that an output is made at each requested time; the final state, reached exactly at the end time, at the iteration limit or, for all ranks after the same step, when the allowance of wall clock time is used up, is always output. Output numbers are consecutive from 0 and name distinct files, time strictly increases between steps and never passes the end time, and the index file is well formed and lists each output of the run once and nothing left by an earlier run in the same directory, in order, with its time, file and the shapes of its datasets.",
     ["inputs", "histories", "configurations"], "every combination of periods, first-output time, start and end time, iteration limit and number of ranks",
     NOBUILD + "; the schedule logic lives in the main loop that no test runs",
     ["src/main.cpp", "src/io/io.cpp"], [("output decision at the start of each step; index writer", "src/main.cpp, src/io/io.cpp:XmlWriter")],
     ["log of steps (time, step size), files present, index file"])

prop("C12", "The domain is partitioned exactly and every rank sees the same mesh",
     "For any global size and number of ranks, the ranks' interior boxes are disjoint, cover every cell, and differ by at most one cell per direction; requested process counts per direction are honoured. On every rank the node coordinates, centres and widths of owned and ghost cells are those of the global mesh at the corresponding global index, the regular mesh has equally spaced nodes from the lower to the upper bound continued into the ghosts, and exactly the ranks touching a domain face are marked as borders.",
     ["inputs", "configurations", "schedules"], "every global size, ghost width, rank count and requested layout, with any rank reordering by the library",
     NOBUILD + "; uneven splits and rank reordering are never sampled",
     ["src/mesh/grid.cpp", "src/mesh/grid_type.cpp", "src/mesh/range.cpp"], [("Grid::mpi_decomposition, Grid::set_grid, compute_regular_mesh_1d", "src/mesh")],
     ["each rank's boxes and coordinate arrays gathered by the harness"])

prop("C13", "Halo exchange gives every inner ghost cell its neighbour's value",
     "After boundary handling, every ghost cell whose position (taken modulo the domain in periodic directions) lies inside the domain holds, for density, every momentum component, energy and every scalar, exactly the value of the cell that owns that position, including edge and corner ghosts. The interior is left untouched, and the result does not depend on the rank layout, message timing or whether device-aware communication is used.",
     ["inputs", "schedules", "configurations"], "every grid size, ghost width, number of scalars, rank layout and message interleaving",
     NOBUILD + "; multi-rank exchange, corners and packed scalars are never checked",
     ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp"], [("ghost_sync per direction and face", "src/boundary_distribute.cpp")],
     ["full ghosted arrays of all ranks after boundary handling"])

prop("C14", "Physical boundary conditions fill ghosts as specified, in priority order",
     "On each physical face the ghosts hold: the value of the nearest interior cell along the normal for the zero-gradient condition; the mirror image with the normal momentum negated and everything else unchanged for the reflexive condition; the opposite side's values for the periodic one; and whatever a user condition writes. Where faces meet, the face of higher priority decides the edge and corner ghosts: the configured priority list read from high to low, by default later directions over earlier ones and the right face over the left one, and an incomplete, repeated or invalid list is refused. Interior cells and ghosts of inner faces are never changed.",
     ["inputs", "configurations"], "every choice of condition per face, every priority permutation, dimension, grid size and rank layout",
     NOBUILD + "; edge/corner precedence and priority lists are never tested",
     ["src/boundary.cpp", "src/boundary_distribute.cpp", "src/boundary_distribute.hpp", "src/main.cpp"], [("face kernels and the priority order", "src/boundary.cpp, src/boundary_distribute.cpp:generate_order")],
     ["full ghosted arrays of all ranks after boundary handling"])

prop("C15", "Mass, momentum, energy and scalars are conserved by every step",
     "Without gravity or source terms, in a box that is periodic or closed by reflexive Cartesian walls, or by the centre and the axis of spherical coordinates, the volume integrals of density, energy and each passive scalar's mass change only by rounding over any number of steps, and so does each momentum component along periodic Cartesian directions. This holds for every Riemann solver, reconstruction, geometry, gas model and decomposition, and the mass change reported at the end of a run is the true one.",
     ["inputs", "configurations", "histories"], "every initial state, solver choice, geometry, mesh and number of steps",
     NOBUILD + "; conservation is a statement over all states and steps",
     ["src/hydro/godunov_scheme.hpp", "src/mesh/geometry.cpp", "src/analysis/integration.cpp"], [("one flux per face applied with opposite signs to its two cells, scaled by face area over cell volume", "src/hydro/godunov_scheme.hpp")],
     ["output files and reported mass"])

prop("C16", "Results do not depend on the number of ranks or their layout",
     "Running one configuration on any number of ranks, with any process layout, rank numbering or message timing, gives the same time steps and the same output fields as on one rank, bit for bit where no cross-rank summation is involved and otherwise up to the rounding of that summation. The reported totals agree in the same sense.",
     ["schedules", "configurations", "inputs"], "every rank count and layout, message interleaving and kernel iteration order, for every setup and solver choice",
     NOBUILD + "; no multi-rank test runs",
     ["src/boundary_distribute.cpp", "src/mesh/grid.cpp", "src/hydro/time_step.hpp", "src/io/io.cpp"], [("halo exchange, global reductions", "src/boundary_distribute.cpp, src/hydro/time_step.hpp")],
     ["output files of runs with different layouts"])

prop("C17", "The equations of state are self-consistent and physical",
     "For every admissible density and pressure (or temperature), converting between pressure, internal energy and temperature and back returns the starting value up to rounding or the documented solver tolerance, the ideal gas obeys P = (gamma-1) e = rho k T / (mu m_p) and the gas with radiation adds exactly a T^4 / 3 to the pressure and a T^4 to the energy. The sound speed is real, positive and equals the thermodynamic derivative at constant entropy. Parameters or states outside the physical domain (adiabatic index not above 1, mean weight not positive, negative or non-finite states) are recognised as invalid.",
     ["inputs"], "every adiabatic index above 1, positive mean weight and positive finite state over many decades",
     "upstream tests evaluate a few fixed states; identities must hold over the whole state space, including the regime where gas and radiation compete",
     ["src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/rad_gas.hpp", "src/units/units.hpp"], [("closed forms and Newton solve for temperature", "src/thermodynamics")],
     ["values returned by the gas models"])

prop("C18", "Conversion between primitive and conserved variables is a faithful inverse pair",
     "For every admissible state in 1, 2 or 3 dimensions, converting density, velocity and pressure to conserved form gives momentum density and total energy equal to internal plus kinetic energy, and converting back returns the original state up to rounding scaled by the ratio of total to internal energy. The array conversions do this for exactly the cells of the requested range, leaving all other cells and the inputs unchanged, and the physical flux is that of the Euler equations.",
     ["inputs"], "every admissible state, direction, dimension, range of cells and array size",
     "upstream tests check single states; the inverse relation and the untouched complement are quantified over states and ranges",
     ["src/hydro/euler_equations.hpp", "src/hydro/array_conversion.hpp"], [("to_prim, to_cons, compute_flux, conv_*", "src/hydro")],
     ["converted states and full arrays before and after"])

prop("C19", "Numerical fluxes are consistent, mirror symmetric and upwind",
     "For every Riemann solver, equal left and right states give the physical flux; mirroring the two states (swapping them and negating normal velocity) negates the mass, energy and transverse momentum fluxes and keeps the normal momentum flux; relabelling directions permutes the result. The HLL and HLLC fluxes equal the upwind physical flux when all waves travel one way, and HLLC and the low-Mach solver carry an isolated contact, stationary or moving, without numerical diffusion or a pressure disturbance; fluxes are finite for all admissible states.",
     ["inputs"], "every pair of admissible left/right states, direction, dimension and gas model",
     "upstream tests a few states; symmetry and consistency are identities over all pairs",
     ["src/hydro/riemann_solver.hpp", "src/hydro/euler_equations.hpp"], [("HLL, HLLC and low-Mach splitting formulas", "src/hydro/riemann_solver.hpp")],
     ["fluxes returned for state pairs"])

prop("C20", "Reconstruction creates no new extrema and is exact where it should be",
     "For any data on a uniform mesh the two face values of a cell lie between the cell and its neighbours in each direction and average to the cell value; at a local extremum, and always with constant reconstruction, both equal the cell value; linear data are reproduced exactly by the limited reconstructions on any mesh. Each limiter is symmetric in its two slopes, odd, scales with them, never exceeds twice the smaller slope, and is the one named in the configuration; the time extrapolation leaves a uniform state unchanged.",
     ["inputs", "configurations"], "every field, mesh spacing, direction, limiter and dimension",
     "upstream tests check a linear profile on a fixed grid; bounds are quantified over all data",
     ["src/hydro/slope_limiters.hpp", "src/hydro/limited_linear_reconstruction.hpp", "src/hydro/face_reconstruction.cpp", "src/hydro/extrapolation_reconstruction.hpp"], [("slope limiters and linear reconstruction", "src/hydro")],
     ["reconstructed face values"])

prop("C21", "The time step is the global CFL bound",
     "At every iteration, unless shortened to meet an output or end time, the step equals the CFL number divided by the largest value over all cells of all ranks, ghost cells included, of the sum over directions of (flow speed plus sound speed) over the physical cell width. It is positive, finite and identical on all ranks, scales linearly with the CFL number, and a cell anywhere in the domain, on any rank, can limit it.",
     ["inputs", "configurations", "schedules"], "every state, mesh, geometry, dimension and rank layout, wherever the limiting cell is",
     NOBUILD + "; the position of the limiting cell and the rank that holds it are never varied",
     ["src/hydro/time_step.hpp", "src/main.cpp"], [("parallel maximum followed by a global maximum", "src/hydro/time_step.hpp")],
     ["step sizes seen by a user step"])

prop("C22", "Uniform flow and states at rest are preserved",
     "A uniform state moving at any constant velocity in a periodic Cartesian box stays uniform to rounding for any number of steps, and a uniform state at rest stays at rest in any geometry, with zero-gradient, reflexive or periodic boundaries, for every solver, reconstruction and gas model. Without gravity no force appears from the geometry alone.",
     ["inputs", "configurations", "histories"], "every uniform state, mesh, geometry, boundary choice, solver and number of steps",
     NOBUILD + "; free-stream preservation is a statement over all meshes and states",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/source_terms.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/mesh/geometry.cpp"], [("flux balance and geometric source terms", "src/hydro, src/mesh/geometry.cpp")],
     ["output files"])

prop("C23", "Passive scalars follow the flow without acting on it",
     "A scalar profile is carried with the flow, alike in every direction and either way, with errors that vanish as the mesh is refined. A scalar that is uniform stays uniform, each scalar stays within its initial bounds to rounding, scalars initialised identically stay identical and a scalar depends only on its own initial values, and the total scalar mass obeys conservation. Density, velocity and pressure are exactly the same whatever the number and values of scalars.",
     ["inputs", "configurations", "histories"], "every number of scalars, scalar field, flow, solver and decomposition",
     NOBUILD + "; scalar index mix-ups need at least two distinct scalars in several dimensions",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/hydro_reconstruction.hpp"], [("scalar flux = mass flux times upwind scalar", "src/hydro/godunov_scheme.hpp")],
     ["output files"])

prop("C24", "Gravity accelerates matter by exactly the prescribed field",
     "The gravitational acceleration is the configured constant vector for uniform gravity, -G M / r^2 toward the centre for a point mass, and -G times the central mass plus the mass inside r over r^2 for self-gravity of a spherical distribution, independent of the decomposition in angle, and in every step that of the state at its beginning. A uniform medium in uniform gravity gains momentum rho g dt and energy rho u.g dt per step, gravity leaves mass and scalars conserved in periodic boxes, and a direction without gravity feels none.",
     ["inputs", "configurations"], "every gravity vector, mass, density field, mesh and rank layout",
     NOBUILD + "; multi-rank mass integration and direction mix-ups are not sampled",
     ["src/gravity/gravity.hpp", "src/gravity/gravity.cpp", "src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp"], [("gravity functors and source terms", "src/gravity, src/hydro")],
     ["gravity values and output files"])

prop("C25", "Cell volumes and face areas are those of the geometry",
     "In Cartesian and spherical coordinates, for 1, 2 or 3 dimensions and any increasing node coordinates, every interior cell's volume and face areas are the exact geometric ones for that coordinate system, positive, and additive: volumes of all cells sum to the volume of the domain and the shared face of two neighbours has one area. For every cell the net face-area vector closes, so that a constant pressure exerts no net force once the geometric source terms are included.",
     ["inputs", "configurations"], "every increasing mesh in each direction, geometry and dimension",
     "upstream tests check one regular mesh; exactness is quantified over all meshes",
     ["src/mesh/geometry.cpp", "src/mesh/geometry.hpp", "src/mesh/grid.cpp"], [("analytic volume and area formulas", "src/mesh/geometry.cpp")],
     ["grid volume and area arrays"])

prop("C26", "Host and device copies never diverge silently",
     "Whatever the sequence of accesses to a mirrored array, a read on either side returns the last value written on any side; accesses declared as overwriting skip copies only, and read-only accesses never mark data as modified. Copies of the handle, including read-only ones, share this state, and no step of a run reads host data in device code or device data in host code.",
     ["histories", "programs"], "every sequence of host/device, read/write/overwrite accesses through any copy of the handle, and every run of the program",
     "upstream tests try a few short sequences, and in a host-only build both sides alias the same memory so that a missing copy cannot show",
     ["src/dual_view/dual_view.hpp"], [("modification flags and lazy synchronisation", "src/dual_view/dual_view.hpp")],
     ["values read on each side against a model; memory-space violations"])

prop("C27", "Kernels are memory safe, race free and independent of iteration order",
     "For every accepted configuration, no kernel or host routine of a run reads or writes outside its arrays, uses uninitialised or freed memory, or executes undefined behaviour. Iterations of one parallel kernel never conflict with each other, so that results are identical for any order or concurrent execution of the iterations.",
     ["inputs", "schedules", "configurations"], "every configuration and every order or interleaving of the iterations of each kernel",
     NOBUILD + "; a race or out-of-range access shows only under sanitizers, odd sizes or other iteration orders",
     ["src/hydro", "src/boundary.cpp", "src/mesh", "src/gravity", "src/moving_grid", "src/setups"], [("one writer per cell in each parallel kernel", "src")],
     ["sanitizer and bounds monitor reports; outputs under permuted and threaded execution"])

prop("C28", "An invalid energy anywhere stops the run with a dump",
     "If at the start of a step any interior cell of any rank has a negative or undefined (NaN) internal energy, every rank stops with an error that names the time and iteration, after writing the state to the next output file and without advancing it. A run in which no cell has such a state is never stopped by this check.",
     ["inputs", "fault_sequences", "configurations"], "every cell position, rank, time step and kind of invalid value",
     NOBUILD + "; the position of the bad cell and NaN propagation through reductions are not sampled",
     ["src/analysis/internal_energy.cpp", "src/main.cpp"], [("global minimum of internal energy tested each iteration", "src/analysis/internal_energy.cpp, src/main.cpp")],
     ["exit status, message and files of each rank after an injected bad cell"])

prop("C29", "Shifting the moving grid keeps matter attached to its coordinates",
     "When a shift is triggered the radial mesh moves outward by exactly one cell: every node takes its outer neighbour's coordinate with the last one extended at the outermost spacing ratio, and every remaining cell keeps its density, momentum, energy and scalars at its own physical position. This holds across rank boundaries and for repeated shifts, all ranks shift together and hold the same mesh, and shifting stops once the outer radius reaches its configured limit, after which the outer boundary is zero-gradient. The shipped criterion asks for a shift when matter in the outermost cells reaches the configured velocity, on any layout, and not otherwise.",
     ["inputs", "histories", "configurations", "schedules"], "every state, mesh, rank layout and sequence of shifts",
     NOBUILD + "; no test shifts a decomposed grid",
     ["src/moving_grid/moving_grid.cpp", "src/main.cpp"], [("shift_grid with neighbour exchange", "src/moving_grid/moving_grid.cpp")],
     ["states and meshes of all ranks before and after a shift"])

prop("C30", "The scheme treats all Cartesian directions and both senses alike",
     "Permuting the coordinate axes of the initial state, mesh, gravity and boundary conditions, or reflecting axes, gives the permuted or reflected solution up to rounding; the same holds for reflections of the angles of spherical coordinates. A problem that varies along fewer directions than the run gives, along them, the solution of the lower-dimensional run with the same steps.",
     ["inputs", "configurations"], "every initial state, axis permutation and reflection, solver, reconstruction and dimension",
     NOBUILD + "; direction-specific mistakes only show by comparing runs",
     ["src/hydro", "src/boundary.cpp", "src/mesh"], [("direction-generic kernels", "src/hydro")],
     ["output files of transformed runs"])

prop("C31", "Radioactive heating deposits the analytic decay energy and nothing else",
     "With nickel heating on, every step adds to each interior cell's energy the product of step, density, nickel fraction (the first scalar) and the specific power of the nickel-cobalt-iron chain at the current time, and changes nothing else; heating without any scalar is refused. With heating off the user step changes nothing.",
     ["inputs", "configurations"], "every time from zero to many decay times, step, density and composition",
     "upstream compares one case; the time law and independence of other cells are quantified over inputs",
     ["src/user_step/user_step.cpp"], [("closed form of the decay chain", "src/user_step/user_step.cpp")],
     ["energy, density and scalar arrays before and after the step"])

prop("C32", "The pressure fix acts only on cold fast cells and only on their energy",
     "With the pressure fix off it has no effect; when on, a cell whose internal energy is at least the configured fraction of its kinetic energy keeps exactly the energy given by the conservative update, and density, momentum and scalars are never changed. For the cells it corrects, the new internal energy is the blend prescribed for their ratio of internal to kinetic energy between the conservative update and the internal-energy equation, and a cell in uniform flow keeps its internal energy.",
     ["inputs", "configurations"], "every state, threshold, mesh, dimension and solver",
     NOBUILD + "; the fix acts only on rare cells",
     ["src/hydro/pressure_fix.hpp", "src/main.cpp"], [("threshold test and blended update", "src/hydro/pressure_fix.hpp")],
     ["energies with and without the fix"])

prop("C33", "Shipped problem setups initialise a physical state at the right place",
     "Every shipped setup fills every interior cell with finite positive density and pressure, finite velocity and scalars, from the cell's global position only: the initial output is the same on any rank layout. Analytic setups match their stated profile (shock tube, shock wall, advection, Gresho vortex, Kelvin-Helmholtz, Rayleigh-Taylor, implosion, stratified and spherical equilibria), blast setups give every cell of the prescribed central region the requested energy independent of decomposition, and a profile read from a file lands on the matching radial cells for all angles, or is refused when it has another number of cells or nodes. The atmospheres stay at rest up to the truncation error, next to their own boundary conditions as well. Every shipped input file starts and advances its setup.",
     ["inputs", "configurations"], "every parameter choice, resolution and rank layout of each setup",
     NOBUILD + "; setups are templates never compiled by the tests",
     ["src/setups", "src/broadcast.cpp", "src/initialization_interface.hpp"], [("initialisation kernels using global coordinates", "src/setups/*/setup.hpp")],
     ["initial output files"])

prop("C34", "Component names select the matching component and unknown names are refused",
     "Each name accepted in the configuration for boundary conditions, reconstructions, Riemann solvers, mesh types and user steps selects the component that behaves as that name says. Any other name, including different case or surrounding text, ends the run with an error before the first step and never silently selects another component.",
     ["inputs", "configurations"], "every name string for each selectable component",
     "the factories are only compiled, never called, by the tests that run here",
     ["src/boundary_factory.hpp", "src/hydro/face_reconstruction.cpp", "src/hydro/godunov_scheme.hpp", "src/mesh/grid_factory.cpp", "src/user_step/user_step_factory.cpp", "src/main.cpp"], [("factory functions", "src/*_factory*, src/main.cpp")],
     ["behaviour of the selected component; exit status for unknown names"])

prop("C35", "Solutions converge to the exact solution of the Euler equations",
     "For Riemann problems along any direction the density, velocity and pressure approach the exact solution as the mesh is refined, with wave positions and plateau values right to a few cells, and for smooth flows the error of the limited linear schemes falls with second order and of the constant one with first order. This holds for both gas models, every Riemann solver and for the end time, mesh bounds and CFL number requested (up to 0.4 for the low Mach solver).",
     ["inputs", "configurations"], "families of Riemann problems and smooth waves, directions, solvers and resolutions",
     NOBUILD + "; accuracy is a statement about sequences of runs",
     ["src/hydro", "src/main.cpp"], [("MUSCL-Hancock scheme", "src/hydro")],
     ["output files against exact solutions"])

prop("C36", "Every step approximates the Euler equations in the geometry of the run",
     "For any smooth flow the change per unit of time of density, momentum, energy and scalars over one step approaches, as mesh and step are refined, the one given by the Euler equations in the run's coordinates: flux divergence, pressure and inertial (centrifugal and Coriolis) terms, and gravity. In particular a gas in straight uniform motion, seen in spherical coordinates, keeps moving straight. The half step by which the face states are advanced before the fluxes are computed obeys the same equations, on both faces of every direction. This holds in Cartesian and spherical geometry, in 1, 2 and 3 dimensions, on regular and smoothly stretched meshes, for both gas models and every solver and reconstruction.",
     ["inputs", "configurations"], "every smooth flow, position relative to the centre and the axis, mesh and choice of scheme",
     NOBUILD + "; a wrong geometric factor is invisible in Cartesian tests and in one-dimensional profiles",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/source_terms.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/mesh/geometry.cpp", "src/gravity/gravity.hpp"], [("fluxes and geometric source terms of one update", "src/hydro/godunov_scheme.hpp, src/hydro/source_terms.hpp")],
     ["density, momentum, energy and scalars after one step"])

prop("C37", "Ranks follow one communication protocol without deadlock or leaks",
     "In every run all ranks issue the same sequence of collective operations with matching arguments on each communicator, every message is received with the size and type it was sent with, and no interleaving of the ranks deadlocks, also when the run ends because of an error detected on any rank by the solver's own checks. Communicators created by the program are released before message passing ends.",
     ["schedules", "configurations", "fault_sequences"], "every rank count and layout, rank interleaving and rank renumbering, with and without outputs, restarts, shifts and detected errors",
     NOBUILD + "; protocol errors need several ranks and particular interleavings",
     ["src/main.cpp", "src/boundary_distribute.cpp", "src/mesh/grid.cpp", "src/gravity/gravity.cpp", "src/moving_grid/moving_grid.cpp", "src/io/io.cpp"], [("collective calls placed outside rank-dependent branches", "src")],
     ["event log of all message-passing calls of all ranks"])

prop("C38", "A run tells the truth about itself and honours its command line",
     "The root rank prints, once each, the settings the run actually uses: space dimension, ghost counts, process counts in total and per direction, global and local cell counts, setup, equation of state, geometry, gravity, restart and its file, device awareness, requested processes per direction, number of passive scalars, pressure fix and its threshold, flux solver, user step and build information. A restart announces the file, time, percentage and iteration it continues from. Exactly one progress entry is printed per output, with the iteration, time, percentage of t_end and file number stored in that file; each move of the grid is announced with its time, iteration and new outer radius. A run that completes prints once its final time and iteration count, its initial mass, and as mean performance the cell updates made by this run divided by the duration of its time loop; it ends with exit code 0 on every rank with nothing on the error stream. A run that cannot start (no argument, missing configuration, unknown flux solver, missing restart file, no boundary condition) ends before its first step with a nonzero exit code on every rank and an explanation on the error stream and never prints that summary; without argument it prints its usage. `--pdi-config=<path>` after the configuration file replaces the built-in output description by the one in that file, other options leave the run unchanged.",
     ["inputs", "configurations", "histories"], "every configuration, layout, restart point and command line, with and without moving grid",
     NOBUILD + "; the numbers must agree with what the run did",
     ["src/main.cpp", "src/print_info.hpp", "src/io/io.cpp", "src/mesh/grid.cpp", "src/moving_grid/moving_grid.cpp"], [("settings and summary printed by rank 0", "src/main.cpp"), ("command line options", "src/main.cpp")],
     ["standard output and error streams", "exit codes", "output files", "step times"])

prop("C39", "A user's own parts are called once, in order, with the current state",
     "A run asks a setup for its user-defined mesh (once per direction) and its initial state (exactly once for every interior cell of the domain, on the rank that owns it, with a position inside that cell) and never does so on a restart. Whenever ghost cells are filled, each user-defined face is treated exactly once by every rank that touches it and by no other. The user step is called once per step on the interior cells, with the time at the start of the step and the step taken, after every other change of that step (pressure fix included); what it writes is bit for bit what the boundary conditions, the shift criterion and the outputs then see. The shift criterion is asked once per step, after the boundary conditions; when it asks for a move, the faces are treated again on the state moved by one cell, and beyond the radial limit it is not asked any more and the outer radial face is no longer the user's. A setup that does not provide a requested part ends the run with a message instead of going on.",
     ["histories", "configurations"], "every mix of user parts, layout, number of steps, moves and restarts",
     NOBUILD + "; the order of calls is a property of whole runs",
     ["src/main.cpp", "src/boundary_distribute.hpp", "src/initialization_interface.hpp", "src/user_step/user_step.hpp", "src/shift_criterion_interface.hpp", "src/default_boundary_setup.hpp"], [("calls of the setup's parts in the main loop", "src/main.cpp")],
     ["log of the calls of every rank with hashes of the arrays", "output files"])

prop("C40", "Whole-domain sums, minima, fills and profiles touch each cell exactly once",
     "A range of a rank's cells, with any number of ghost layers up to that of the mesh, is visited cell by cell exactly once and nothing outside it is; a range wider than the ghosts of the mesh, or with negative or inverted corners, is refused. The integral of a quantity over the domain is the sum of value times cell volume over the interior cells of all ranks, and the minimum internal energy the least over the same cells, below zero or not a number as soon as one cell's is not a number; both are the same on every rank, do not depend on what ghost cells hold and leave their inputs alone. Filling a field with a constant or with a profile along the first direction sets each interior cell of each component to the constant or to the profile's value at its position, temperatures are set on exactly the cells of the range asked for, and other cells keep their content.",
     ["inputs", "configurations"], "every mesh, number of ranks and layout, ghost width and content of the cells",
     "the unit tests fill one array of one rank",
     ["src/analysis/integration.cpp", "src/analysis/internal_energy.cpp", "src/analysis/temperature.hpp", "src/broadcast.cpp", "src/mesh/range.cpp"], [("integrate", "src/analysis/integration.cpp"), ("broadcast", "src/broadcast.cpp"), ("cell_mdrange", "src/mesh/range.cpp")],
     ["content of the arrays before and after", "returned sums and minima", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
