"""The workloads of the other checks under valgrind and with the standard library's debug mode."""
import os
import rt
import envcmp
ID = "C34"
LEVEL = "exploration"
TECHNIQUE = ("valgrind memcheck (with fill patterns) and the standard library's debug mode (checked iterators, preconditions) watch the workloads of the other "
             "checks, and stack memory is filled with two different patterns; the records must be the same everywhere")
RULE = ("an evaluation is one case of another check's workload run under one of the monitors and compared with its record in the ASan/UBSan build; "
        "distinct = (monitor, case) pairs whose record has at least two fields")
ASSUMPTIONS = ["GCC and Clang on x86-64 with libstdc++", "memcheck follows undefined values until they decide a branch, an address or a system call"]
NAMES = sorted(set(envcmp.SRC) - {"io", "testing"})
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--vgdb=no", "--track-origins=no", "--malloc-fill=0xa5",
            "--free-fill=0x5a", "--num-callers=14"]
FILL = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-inline-functions"]


def variants():
    debug = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"]
    return {"debug mode": envcmp.Variant({"RT_CPU_LIMIT": "120"}, debug),
            "stack filled with a pattern": envcmp.Variant({"MALLOC_PERTURB_": "90"}, FILL + ["-ftrivial-auto-var-init=pattern"]),
            "stack filled with zeros": envcmp.Variant({"MALLOC_PERTURB_": "165"}, FILL + ["-ftrivial-auto-var-init=zero"]),
            "memcheck": envcmp.Variant({"RT_CPU_LIMIT": "300"}, ["-O1", "-g1"], VALGRIND, 0.3),
            "memcheck, g++": envcmp.Variant({"RT_CPU_LIMIT": "300"}, ["-O1", "-g1"], VALGRIND, 0.15, "g++")}


def run():
    return envcmp.run(__import__("C34"), NAMES, variants(), 4000 if os.environ.get("VERIF_TIER") == "thorough" else 600, step=150)


def replay(payload):
    return envcmp.replay(__import__("C34"), payload, variants()[payload["label"]])
