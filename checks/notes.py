"""technique and level_note of each check"""
_S = "Holds on the executions generated from VERIF_SEED; says nothing about inputs outside the generator. "
NOTES = {
    "C01": ("generated texts with expectations known by construction, oracle on the observed callback sequence, ASan/UBSan",
            _S + "Trusts the generator's reading of the grammar documented in ini.h and README.md."),
    "C02": ("hostile bytes under AddressSanitizer, UBSan and valgrind memcheck; differential monitor over the four input sources",
            _S + "Termination is observed with an event cap and a time limit."),
    "C03": ("typed lookups of generated literals compared with exact 128-bit and correctly rounded references, ASan/UBSan",
            _S + "Trusts glibc's strtod family as the nearest-value reference."),
    "C04": ("differential monitor of all run parameters against a table of documented keys and defaults", _S + "The table was written from the code and the documented input files."),
    "C05": ("runtime oracle in 128-bit arithmetic over all pairs of integer types, UBSan", "Exhaustive for 8- and 16-bit arguments, boundary values and random samples for wider ones."),
    "C06": ("byte-exact oracle on printed lines and monitor of the stream state, ASan/UBSan", _S),
    "C07": ("recording close functions and a record of every object the HDF5 library opens and closes, around every call and every run, ASan/UBSan", _S + "Functions of the library that the recorder does not know go unrecorded."),
    "C08": ("trace monitor over a recording message-passing stand-in, for the guard alone and for whole runs, and state monitor on the real library", _S),
    "C09": ("file contents compared with the solver state recorded by hooks at every step, accounting of every rank's transfers",
            _S + "Runs on the stand-ins of /verif/shim for Kokkos, MPI and PDI; the real parallel libraries are not exercised."),
    "C11": ("trace specification of the output schedule checked over the recorded steps; parser of the index file cross-checked with the files",
            _S + "Runs on the stand-ins of /verif/shim for Kokkos, MPI and PDI."),
}
_W = "Runs on the stand-ins of /verif/shim for Kokkos, MPI and PDI."
NOTES.update({
    "C12": ("boxes and coordinates recorded from every simulated rank, unit level and inside whole runs, checked against the global mesh", _S + _W),
    "C13": ("bit-exact monitor of every inner ghost of every rank against the wrapped global field, random message and kernel orders", _S + _W),
    "C14": ("bit-exact monitor of every outer ghost against a global model of the conditions, unit level and whole runs", _S + _W),
    "C17": ("runtime oracle in extended precision over random states of both gas models", _S + _W),
    "C18": ("runtime oracle in extended precision for states, canary-filled arrays for the array versions", _S + _W),
    "C19": ("runtime oracles on fluxes: consistency, mirror and relabelling metamorphic relations, upwind and contact references", _S + _W),
    "C20": ("runtime oracles on limiters and on reconstructed arrays over random meshes and fields", _S + _W),
    "C25": ("runtime oracle in extended precision on volumes, areas, additivity; pressure closure observed in whole runs", _S + _W),
})
NOTES.update({
    "C21": ("step sizes observed by hooks compared with an extended-precision bound recomputed over all cells of all simulated ranks", _S + _W),
    "C24": ("runtime oracle in extended precision on accelerations and on the source terms of single updates", _S + _W),
    "C26": ("model-based monitor of random access histories, and a memory-space monitor over whole runs with non-aliasing memories", _S + _W),
    "C31": ("runtime oracle in extended precision on the energy added by the step, bit-exact frame condition", _S + _W),
    "C32": ("per-cell runtime reference of the fix, bit-exact frame condition; paired whole runs", _S + _W),
})
NOTES["C35"] = ("whole runs monitored against exact solutions (self-similar Riemann solutions, simple waves) on successive meshes", _S + _W)
NOTES["C36"] = ("states observed before and after a step compared with numerically differentiated exact fluxes on two meshes (consistency oracle)", _S + _W)
NOTES.update({
    "C15": ("online totals in extended precision over the state of every cell recorded after every step", _S + _W),
    "C16": ("differential monitor: output files of runs on different simulated layouts, rank numberings, message timings and kernel orders", _S + _W),
    "C22": ("invariant monitor on the state of every cell after every step", _S + _W),
    "C23": ("differential monitor between runs with different sets of scalars, bounds monitor on every output", _S + _W),
    "C30": ("metamorphic monitor: outputs of mapped configurations, and of lower-dimensional runs, compared cell by cell", _S + _W),
})
NOTES.update({
    "C10": ("differential monitor: every output of a restarted run against the uninterrupted one", _S + _W),
    "C27": ("AddressSanitizer, UndefinedBehaviorSanitizer, ThreadSanitizer and memcheck over whole runs, order-perturbed kernels with output comparison", _S + _W),
    "C28": ("fault injection with an online monitor that judges every recorded state and compares it with the end of the run and its dump", _S + _W),
    "C29": ("state recorded before each shift against outputs after it, mesh monitor on every rank", _S + _W),
    "C33": ("initial outputs of whole runs of every shipped setup compared cell by cell with their analytic profile and bit by bit between layouts; rest monitor for the atmospheres",
            _S + _W + " The profiles were written from the setups and the literature."),
    "C34": ("runtime reference of the scheme replayed on the outputs of every step; monitored refusals of mutated names", _S + _W),
    "C37": ("online protocol monitor in the message passing stand-in: collective matching, message sizes and types, deadlocks, leaks, under random schedules", _S + _W),
})
NOTES["C38"] = ("monitor of the text, exit codes and files of whole runs against the configuration, the recorded steps and a controlled clock", _S + _W)
NA = {}
NOTES["C39"] = ("monitor of the calls of user-written parts in whole runs: sequence grammar per rank, bitwise hand-over of arrays, outputs", _S + _W)
NOTES["C40"] = ("monitor of the cells visited and written by ranges, fills and profiles, and extended-precision sums and minima over all ranks, with poisoned ghost cells", _S)
