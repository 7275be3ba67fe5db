#!/usr/bin/env python3
"""run.py <ID>: runs one check (see MANIFEST.json). run.py <ID> --replay FILE: runs the one case again that FILE is about."""
import atexit, importlib, json, os, shutil, sys, tempfile, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))


def main():
    prop = sys.argv[1]
    if sys.argv[2:3] == ["--replay"]:
        w = json.load(open(sys.argv[3]))
        os.environ.update(VERIF_SEED=str(w["seed"]), VERIF_TIER=w["tier"], VERIF_CASE=w["replay"].get("case_seed", ""))
    base = tempfile.mkdtemp(prefix="pfpv-", dir="/tmp")
    os.chmod(base, 0o711)
    os.environ["PFPV_TMP"] = base
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(base, ignore_errors=True))
    import common
    try:
        return importlib.import_module("checks." + prop.lower()).main()
    except common.Violation as v:
        # an oracle fired outside a case
        r = common.Runner(prop, 1)
        r.violations.append(v)
        return common.finish(r, "exploration", "failed before the first case", [])
    except common.Inconclusive as e:
        print("error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
