#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]: runs the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, json, os, subprocess, sys, traceback
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "lib"))
sys.path.insert(0, str(HERE / "checks"))
sys.dont_write_bytecode = True


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1].upper()
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(pid.lower())
    import driver
    if "--replay" in sys.argv:
        v = json.loads(Path(sys.argv[sys.argv.index("--replay") + 1]).read_text())
        print(json.dumps(v, indent=1))
        r = v.get("replay") or {}
        os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(v["seed"]), v["tier"]
        if "binary" in r and "only" in r and hasattr(mod, "builds"):
            ck = mod.make()
            mod.builds(ck)
            return subprocess.run([str(ck.tmp / r["binary"]), "--mode", r["mode"], "--seed", str(r["seed"]), "--n", str(r["only"] + 1), "--only", str(r["only"]),
                                   "--tier", r["tier"], "--verbose", "1", "--out", "/dev/null", "--cpu", "600"] + r["extra"],
                                  env={**os.environ, **driver.SAN_ENV, **r.get("env", {})}).returncode
        return 0
    ck = mod.make()
    try:
        mod.run(ck)
    except driver.Harness as e:
        ck.error(str(e))
    except Exception:
        traceback.print_exc()
        ck.error("exception in the check")
    rc = ck.finish()
    sys.stdout.flush()
    return rc


sys.exit(main())
