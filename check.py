#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current source."""
import importlib, json, os, resource, sys, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


CUR = []
LIMIT = 820  # seconds


def main():
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from report import Report
    import export

    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    mod = importlib.import_module(prop.lower())
    R = Report(prop, tier if tier in ("quick", "thorough") else "quick", seed, mod.RULE)
    CUR.append(R)
    R.assume = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        path = export.export()
        mod.run(R, json.load(open(path)))
    except export.ExportError as e:
        print(e)
        R.undecided("export", "the program could not be built for analysis: %s" % e)
    except Exception:
        traceback.print_exc()
        # nothing is decided where the analysis itself fails; what was decided before stands
        R.undecided("internal", traceback.format_exc()[-3000:])
    return R.finish()


if __name__ == "__main__":
    import threading

    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()), daemon=True)
    t.start()
    t.join(LIMIT if "thorough" not in sys.argv[2:] else 4 * LIMIT)
    if t.is_alive() and CUR:
        CUR[0].undecided("time", "the analysis did not finish")
        rc.append(CUR[0].finish())
    sys.stdout.flush()
    os._exit(rc[0] if rc else 1)
