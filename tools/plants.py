"""Which checks catch which planted changes: applies each of seeded/ to a scratch clone of /repo and runs checks on it.
usage: plants.py CLONE_DIR [--part I/N] [--also C01,C02] [id ...]     (not used by any check)"""
import json, os, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
args = sys.argv[1:]
clone = Path(args.pop(0))
part, also, ids = (0, 1), [], []
while args:
    a = args.pop(0)
    if a == "--part":
        part = tuple(int(x) for x in args.pop(0).split("/"))
    elif a == "--also":
        also = args.pop(0).split(",")
    else:
        ids.append(a)


def git(*a):
    return subprocess.run(["git", "-C", str(clone), *a], capture_output=True, text=True)


if not clone.exists():
    subprocess.run(["git", "clone", "-q", "/repo", str(clone)], check=True)
git("fetch", "-q", "/repo", "HEAD")
git("checkout", "-qf", "--detach", subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip())
todo = sorted(d for d in (VERIF / "seeded").iterdir() if d.is_dir() and (not ids or d.name in ids))
for d in todo[part[0]::part[1]]:
    git("checkout", "-qf", "--", ".")
    if git("apply", str(d / "patch.diff")).returncode:
        print(d.name, "DOES NOT APPLY", flush=True)
        continue
    for prop in [json.loads((d / "meta.json").read_text())["property"], *also]:
        t = time.time()
        r = subprocess.run([sys.executable, "run.py", prop], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=str(clone)))
        print(d.name, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode}"), f"{time.time() - t:.0f}s", flush=True)
git("checkout", "-qf", "--", ".")
