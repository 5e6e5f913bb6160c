"""Entry point: python -m ndmv.run C01 [--replay FILE]  (VERIF_SEED, VERIF_TIER)."""
import glob
import json
import os
import sys
import traceback

from . import engine


def props():
    from . import props_rw
    ps = list(props_rw.PROPS)
    from . import props_more, props_sys
    ps += props_sys.PROPS + props_more.PROPS
    return {p.id: p for p in ps}


def load(path):
    d = json.load(open(path, encoding="utf-8"))
    return d["cases"]


def known_findings(pid):
    """Lines `finding: property=<id> replay=<file under /verif> <what fails>`."""
    out = []
    path = os.path.join(engine.ROOT, "known_findings.txt")
    for line in open(path, encoding="utf-8") if os.path.exists(path) else []:
        if line.startswith(f"finding: property={pid} "):
            replay, _, what = line.split(" ", 2)[2].strip().partition(" ")
            out.append((what, load(os.path.join(engine.ROOT, replay.split("=", 1)[1]))))
    return out


def main(argv):
    pid = argv[0]
    prop = props()[pid]()
    if len(argv) > 2 and argv[1] == "--replay":
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            cases = load(argv[2])
            print(prop.show(cases[-1]))
            msg = engine.isolated(prop, cases, d)
        print("---- " + (msg or "holds"))
        if msg:
            print(f"VIOLATION property={pid} replay={os.path.abspath(argv[2])}")
        return 1 if msg else 0
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed_n = int(seed) if seed.lstrip("-").isdigit() else 1
    saved = [(os.path.basename(p), load(p)) for p in sorted(glob.glob(os.path.join(engine.ROOT, "regress", pid, "*.json")))]
    return engine.run(prop, seed_n, tier, known_findings(pid), saved)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
