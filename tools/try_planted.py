"""Development aid (not a check): runs the check of its property against every planted bug in a
scratch clone of /repo.  python3 tools/try_planted.py [--all-checks] [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for b in ids:
    d = os.path.join(ROOT, "seeded", b)
    meta = json.load(open(os.path.join(d, "meta.json")))
    wt = tempfile.mkdtemp(prefix="planted-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        if subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")]).returncode:
            print(b, "DOES NOT APPLY")
            continue
        props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))] if "--all-checks" in sys.argv else [meta["property"]]
        caught = []
        for p in props:
            r = subprocess.run([os.path.join(ROOT, "check"), p], capture_output=True, text=True, env=dict(os.environ, NDMV_REPO=wt, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            if r.returncode == 1:
                caught.append(p)
            elif r.returncode:
                caught.append(f"{p}(rc {r.returncode})")
        print(b, meta["property"], "caught by", " ".join(caught) or "NOTHING", flush=True)
    finally:
        shutil.rmtree(wt)
