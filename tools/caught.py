"""Run the checks against each planted bug, in a scratch copy of the library (never /repo); results go to tools/caught.json.

  python3 tools/caught.py [--all] [ID...]      --all: every check, not only the one of the bug's property
"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
every = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(root + "/seeded"))
path = here + "/caught.json"
seen = json.load(open(path)) if os.path.exists(path) else {}
for i in ids:
    d = f"{root}/seeded/{i}"
    own = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="cg")
    try:
        shutil.copytree("/repo/src", w + "/src")
        subprocess.run(f"cd {w} && git init -q . && git apply {d}/patch.diff", shell=True, check=True)
        hits = []
        for p in [f"C{k:02}" for k in range(1, 100) if os.path.exists(f"{root}/mc/c{k:02}.py")] if every else [own]:
            r = subprocess.run(["/opt/venv/bin/python", "-B", root + "/run.py", p], cwd=root, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO_SRC=w + "/src", VERIF_OUT=w))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                hits.append(p)
            if p == own:
                print(i, p, "CAUGHT" if p in hits else f"MISSED {r.returncode}", (r.stdout.splitlines() or [""])[0][:150], flush=True)
        seen[i] = " ".join(hits) or "none"
        json.dump(seen, open(path, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(w)
