"""C05-C08: the small self-contained guarantees."""
import os
import subprocess

import system
import vbuild

SRC = os.path.join(vbuild.REPO, "src")
UTILS = os.path.join(SRC, "utils")


def c05(ctx):
    ctx.rule = ("all 100 pairs of the ten integer types; every value of 8- and 16-bit arguments, for wider ones 2^b+d for all b, the limits and "
                "random values of every magnitude; non-trivial: pairs of types, told apart by whether values were returned and refused")
    exe = vbuild.build_plain("t_intcast", ["t_intcast.cpp"], [], [UTILS], san="asan")
    ctx.run(exe, label="int_cast", min_eval=100000)


def c06(ctx):
    ctx.rule = ("names and values of length 0 to 150 of eleven value types on streams with random base, precision, notation, fill, alignment and "
                "pending width; the printed line is compared byte by byte with the name and the stream's own rendering of the value padded "
                "with dots; the formatting state and later text are compared; non-trivial: distinct lines")
    exe = vbuild.build_plain("t_print", ["t_print.cpp"], [], [UTILS], san="asan")
    ctx.run(exe, label="print_info", min_eval=1000)


def c07(ctx):
    ctx.rule = ("nested handle scopes with recording close functions, left normally or by exception; real HDF5 files with datasets of rank 0 to 5 "
                "(fixed, extendible, empty), groups and missing paths, each asked for the right, one changed, permuted, wrapped or "
                "differently ranked extents; every opening and closing of an object of the library is recorded and compared around every call; "
                "whole runs, plain, restarted, and with the restart refused, end with no open object; non-trivial: every probe")
    lib = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
    exe = vbuild.build_plain("t_h5", ["t_h5.cpp"], [], [os.path.join(SRC, "io"), vbuild.HDF5_INC, "/usr/lib/x86_64-linux-gnu/openmpi/include"],
                             san="asan", libs=["-L" + lib, "-lhdf5", "-Wl,-rpath," + lib])
    ctx.run(exe, label="hdf5", min_eval=1000, env={"LSAN_OPTIONS": "suppressions=" + os.path.join(vbuild.VERIF, "harness/lsan.supp")})
    system.solver(ctx, "t_runB", [system.C1, system.C3] + ([system.C2, system.S2] if ctx.thorough else []), [("what=handles",)], min_eval=40)


def c08(ctx):
    ctx.rule = ("the guard against a recording message-passing library (with and without arguments, options consumed by the library, nested "
                "scopes, exceptions) and against the real library in separate processes; whole runs that end normally or in eight kinds of error on simulated ranks; "
                "non-trivial: distinct combinations")
    exe = vbuild.build_plain("t_guard", ["t_guard.cpp"], [os.path.join(SRC, "mpi_scope_guard.cpp")],
                             [os.path.join(vbuild.HARNESS, "mpistub"), SRC], san="asan")
    ctx.run(exe, label="guard", min_eval=300)
    inc = subprocess.run(["mpicxx", "--showme:incdirs"], capture_output=True, text=True).stdout.split()
    if inc:
        libs = subprocess.run(["mpicxx", "--showme:link"], capture_output=True, text=True).stdout.split()
        real = vbuild.build_plain("t_guard_real", ["t_guard.cpp"], [os.path.join(SRC, "mpi_scope_guard.cpp")], inc + [SRC], san="plain",
                                  defines=["-DREAL_MPI"], libs=libs)
        for ex in "01":
            for args in "01":
                ctx.run(real, ["ex=" + ex, "args=" + args], label="guard-real-%s%s" % (ex, args),
                        env={"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1"})
    system.solver(ctx, "t_runB", [system.C1, system.C2] + ([system.C3, system.S2] if ctx.thorough else []), [("what=session",)], min_eval=100)
