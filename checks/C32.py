"""The workloads of the other checks under other locales of the process must record what they record in the C locale."""
import os
import shutil
import subprocess
import rt
import envcmp
ID = "C32"
LEVEL = "exploration"
TECHNIQUE = ("the recorded events of the same deterministic workload in the C locale and under other locales of the process (generated system locales, "
             "custom facets) are compared, under ASan/UBSan")
RULE = ("an evaluation is one case of another check's workload run under one locale and compared with its record in the C locale; "
        "distinct = (locale, case) pairs whose record has at least two fields")
ASSUMPTIONS = ["the locale is set before the library is used and not changed meanwhile", "an output stream of the user's own is imbued by the user"]
LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("ps_AF", "UTF-8"), ("fr_FR", "ISO-8859-1"), ("ru_RU", "KOI8-R"), ("ja_JP", "EUC-JP")]
NAMES = sorted(set(envcmp.SRC) - {"testing"})


def make(d):
    """Generates the system locales in a scratch directory; the ones that cannot be made are left out."""
    os.makedirs(d, exist_ok=True)
    ps = []
    for i, m in LOCALES:
        name = "%s.%s" % (i, m)
        try:
            ps.append((name, subprocess.Popen(["localedef", "-i", i, "-f", m, os.path.join(d, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        except OSError:
            pass
    for _, p in ps:
        p.wait()
    return [n for n, _ in ps if os.path.isdir(os.path.join(d, n))]


def variants(d):
    v = {"facets": envcmp.Variant({"RT_LOCALE": "facets"})}
    have = make(d)
    for k, n in enumerate(have):
        v["setlocale " + n] = envcmp.Variant({"RT_LOCALE": "c:" + n, "LOCPATH": d})
        if k % 2 == 0 or len(have) < 4:
            v["global " + n] = envcmp.Variant({"RT_LOCALE": "cxx:" + n, "LOCPATH": d})
    return v


def run():
    d = rt.scratch("c32")
    try:
        return envcmp.run(__import__("C32"), NAMES, variants(d), 4000 if os.environ.get("VERIF_TIER") == "thorough" else 500)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(payload):
    d = rt.scratch("c32")
    try:
        return envcmp.replay(__import__("C32"), payload, variants(d)[payload["label"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)
