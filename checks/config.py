"""C01-C04: configuration reading."""
import concurrent.futures
import os

import vbuild

INIH = os.path.join(vbuild.REPO, "vendor/inih")
UTILS = os.path.join(vbuild.REPO, "src/utils")

INI_CONFIGS = [
    ("default", []),
    ("nomulti", ["-DINI_ALLOW_MULTILINE=0"]),
    ("noinline", ["-DINI_ALLOW_INLINE_COMMENTS=0"]),
    ("stop", ["-DINI_STOP_ON_FIRST_ERROR=1"]),
    ("lineno", ["-DINI_HANDLER_LINENO=1"]),
    ("heap", ["-DINI_USE_STACK=0"]),
    ("short", ["-DINI_MAX_LINE=20"]),
    ("long", ["-DINI_MAX_LINE=1000"]),
    ("nobom", ["-DINI_ALLOW_BOM=0"]),
    ("prefix", ["-DINI_INLINE_COMMENT_PREFIXES=\";#\"", "-DINI_USE_STACK=0", "-DINI_HANDLER_LINENO=1"]),
]


def build_ini(cfg, san="asan"):
    name, defs = cfg
    return vbuild.build_plain("t_ini_" + name, ["t_ini.cpp"], [os.path.join(INIH, "src/ini.c")], [os.path.join(INIH, "include")], san=san,
                              defines=defs)


def run_ini(ctx, mode):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(build_ini, INI_CONFIGS))
        for f in [ex.submit(ctx.run, e, ["mode=" + mode], "ini-" + c[0], None, None, False, None, 500) for e, c in zip(exes, INI_CONFIGS)]:
            f.result()


def c01(ctx):
    ctx.rule = ("texts assembled line by line from a grammar (sections, pairs with = or :, blanks, comments, inline comments, continuation, "
                "malformed lines, refused pairs, CRLF, BOM, lines at the length limit) so that the expected pairs and result are known by "
                "construction; every text is parsed from the four sources under %d compile-time configurations; non-trivial: at least one "
                "pair is expected" % len(INI_CONFIGS))
    ctx.assumptions = ["lines are shorter than INI_MAX_LINE and names/sections within their 49-byte limits (longer ones belong to C02)",
                       "what follows a blank and ';' on a continuation line is not judged"]
    run_ini(ctx, "c01")


def c02(ctx):
    ctx.rule = ("random bytes, structural characters, lines around every limit, mutated valid texts, byte-order marks, NULs; each parsed "
                "under AddressSanitizer+UBSan from file name, FILE*, string (exact-size heap copy) and a line reader that overwrites the "
                "whole offered buffer; results compared; a sample is repeated under valgrind memcheck; non-trivial: something was reported")
    ctx.assumptions = ["texts with NUL bytes are not supplied as C strings", "the four sources are compared on Linux (no text-mode translation)"]
    run_ini(ctx, "c02")
    exe = build_ini(INI_CONFIGS[0], "plain")
    heap = build_ini(INI_CONFIGS[5], "plain")
    for e, l in ((exe, "memcheck-stack"), (heap, "memcheck-heap")):
        memcheck(ctx, e, l, ["mode=c02", "n=60"] + (["scale=0.02"] if ctx.thorough else []))


def memcheck(ctx, exe, label, args):
    """Uninitialised values and accesses, seen by valgrind."""
    d = ctx.subdir(label)
    log = os.path.join(d, "vg.log")
    w = os.path.join(d, "wrap.sh")
    with open(w, "w") as fh:
        fh.write("#!/bin/sh\nexec valgrind -q --error-exitcode=95 --exit-on-first-error=yes --log-file=%s --leak-check=full "
                 "--errors-for-leak-kinds=definite %s \"$@\"\n" % (log, exe))
    os.chmod(w, 0o755)
    nv = len(ctx.viol)
    try:
        ctx.run(w, args, label=label)
    finally:
        txt = open(log).read() if os.path.exists(log) else ""
        if "==" in txt:
            del ctx.viol[nv:]
            ctx.violation("memcheck", txt[:1200], {"driver": label, "seed": ctx.seed})
    ctx.stats["memcheck_runs"] = ctx.stats.get("memcheck_runs", 0) + 1


def inih_srcs():
    return [os.path.join(INIH, "src/ini.c"), os.path.join(INIH, "src/INIReader.cpp")]


def c03(ctx):
    ctx.rule = ("configuration files written with one literal each (integers around every power of two and of ten in decimal and 0x form for "
                "six integer types, reals from random bit patterns, long digit strings and rounding boundaries for three types, boolean "
                "words in random case, non-numbers), and random files with repeated keys, continuation lines and random letter case compared "
                "with a map kept by the driver; non-trivial: the literal or the file has content")
    ctx.assumptions = ["text after a leading number is not judged (shipped inputs rely on 'value # comment')",
                       "a real below the smallest normal number may be rounded or refused"]
    exe = vbuild.build_plain("t_lookup", ["t_config.cpp"], inih_srcs(), [os.path.join(INIH, "include")], san="asan")
    ctx.run(exe, label="lookup", min_eval=5000)


def c04(ctx):
    ctx.rule = ("configuration files holding each key alone, all keys, no key, random subsets, with decoy keys in wrong sections and random "
                "letter case and order; every field of the parameter object is compared with the written value or its documented default, "
                "also after copying, moving and assigning; non-trivial: at least one key is set")
    ctx.assumptions = ["the per-face boundary keys, which the program reads outside Param, are exercised by C14 and C34"]
    exe = vbuild.build_plain("t_param", ["t_config.cpp"], inih_srcs() + [os.path.join(UTILS, "param.cpp")], [os.path.join(INIH, "include"), UTILS],
                             san="asan", defines=["-DWITH_PARAM"])
    ctx.run(exe, label="param", min_eval=1500)
