#!/usr/bin/env python3
"""check.py <ID> [--replay FILE]: decides one property on /repo's current working tree."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
try:
    sys.set_int_max_str_digits(0)
except AttributeError:
    pass
import rt  # noqa: E402


def main():
    mod = importlib.import_module(sys.argv[1])
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            data = json.load(open(sys.argv[3]))
            if "compile" in data["payload"]:
                if hasattr(mod, "DRIVERS"):
                    rt.build_all(mod)
                else:
                    return mod.run()
                return 0
            return (getattr(mod, "replay", None) or rt.replay_cases)(*(
                [data["payload"]] if hasattr(mod, "replay") else [mod, data["payload"]]))
        if len(sys.argv) > 2 and sys.argv[2] == "--build":
            if hasattr(mod, "DRIVERS"):
                rt.build_all(mod)
            return 0
        return mod.run() if hasattr(mod, "run") else rt.run_cases(mod)
    except rt.DoesNotCompile as e:
        if sys.argv[2:3] == ["--build"]:
            print(e)
            return 2
        if sys.argv[2:3] == ["--replay"]:
            print(e)
            return 1
        rep = rt.Report(mod.ID, mod.LEVEL, mod.RULE, mod.ASSUMPTIONS)
        rep.violation("compile:" + e.what, "a use of the public interface does not compile any more: " + e.first, {"compile": e.what, "output": str(e)})
        return rep.finish()
    except rt.Inconclusive as e:
        print("inconclusive: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
