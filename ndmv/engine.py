"""Deterministic property-based testing engine: generated cases, shards, shrinking,
replay files, evidence.  Nothing here knows about the code under test."""
import collections
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 90          # a case takes ~10 ms; only a hang gets here
WORKER_BYTES = 6 << 30


class Fail(Exception):
    """The property is broken (as opposed to any other exception: the harness is)."""


class Hang(BaseException):
    pass


def api(what, fn, *a, **k):
    """Calls the code under test where the property says it must succeed."""
    try:
        return fn(*a, **k)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "ccsds_ndm" in f.filename), "?")
        raise Fail(f"{what} raised {type(e).__name__}: {str(e)[:200]} (in {at})") from e


def rejects(what, fn, *a, **k):
    """Calls the code under test where it must refuse; returns the exception."""
    try:
        r = fn(*a, **k)
    except Exception as e:
        return e
    raise Fail(f"{what} was accepted: {str(r)[:200]}")


class Prop:
    id = ""
    rule = ""
    quick = 3000
    thorough = 60000
    assumptions = []

    def gen(self, rng, i):
        raise NotImplementedError

    def check(self, case):
        """Raises Fail when the property is broken on this case."""
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def labels(self, case):
        return []

    def shrink(self, case):
        """Smaller cases of the same domain."""
        return iter(())

    def show(self, case):
        """Short human-readable sample."""
        return json.dumps(case, ensure_ascii=False)


def case_of(prop, seed, i):
    return prop.gen(random.Random(f"{seed}:{prop.id}:{i}"), i)


def run_case(prop, case):
    """None, or the failure message."""
    def alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_SECONDS)
    try:
        prop.check(copy.deepcopy(case))
    except Fail as e:
        return str(e)[:2000]
    except Exception as e:                  # raised inside the code under test: the property is broken too
        tb = traceback.extract_tb(e.__traceback__)
        at = [f for f in tb if "/ccsds_ndm/" in f.filename]
        if not at:
            if not isinstance(e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)):
                raise
            # the result has a shape in which it cannot even be examined
            return f"the result could not be examined: {type(e).__name__}: {str(e)[:300]} (in {os.path.basename(tb[-1].filename)}:{tb[-1].lineno})"
        return f"{type(e).__name__}: {str(e)[:300]} (raised in {os.path.basename(at[-1].filename)}:{at[-1].name})"
    except Hang:
        return f"HANG: no result within {CASE_SECONDS} s"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


def _shard(prop, seed, w, workers, total, stop, conn, scratch):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
        scratch = os.path.join(scratch, f"w{w}")
        os.mkdir(scratch)
        os.chdir(scratch)
        res = {"n": 0, "keys": set(), "labels": collections.Counter(), "fail": None, "samples": []}
        for i in range(w, total, workers):
            if stop.is_set():
                break
            case = case_of(prop, seed, i)
            res["n"] += 1
            if prop.nontrivial(case):
                res["keys"].add(key(case))
                if len(res["samples"]) < 2 and i >= total // 4:
                    res["samples"].append(prop.show(case)[:1500])
            res["labels"].update(set(prop.labels(case)))
            msg = run_case(prop, case)
            if msg is not None:
                res["fail"] = (i, msg)
                stop.set()
                break
        conn.send(res)
    except BaseException:
        conn.send({"error": traceback.format_exc()})
        stop.set()
    conn.close()


def isolated(prop, cases, scratch, timeout=CASE_SECONDS * 3):
    """Runs the cases in a fresh process; the failure message of the last, or None."""
    a, b = mp.Pipe(False)

    def body():
        try:
            os.chdir(tempfile.mkdtemp(dir=scratch))
            resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
            for c in cases[:-1]:
                run_case(prop, c)
            b.send((True, run_case(prop, cases[-1])))
        except BaseException:
            b.send((False, traceback.format_exc()))
    p = mp.get_context("fork").Process(target=body)
    p.start()
    b.close()
    try:
        ok, msg = a.recv() if a.poll(timeout) else (True, "HANG: process did not answer")
    except EOFError:
        ok, msg = True, "process died"
    p.kill()
    p.join()
    if not ok:
        raise RuntimeError("harness error\n" + msg)
    return msg


def shrink(prop, cases, msg, scratch, seconds=60, tries=600):
    """Greedy shrinking of the last case (and of the history before it)."""
    end = time.time() + seconds
    history, case = cases[:-1], cases[-1]
    if msg.startswith("HANG"):
        return cases, msg
    while history and time.time() < end:
        for h in ([], history[len(history) // 2:], history[1:]):
            if len(h) < len(history):
                m = isolated(prop, h + [case], scratch)
                if m:
                    history, msg = h, m
                    break
        else:
            break
    done = False
    while not done and tries > 0 and time.time() < end:
        done = True
        for cand in prop.shrink(copy.deepcopy(case)):
            tries -= 1
            if tries <= 0 or time.time() > end:
                break
            try:
                m = isolated(prop, history + [cand], scratch)
            except RuntimeError:
                continue
            if m:
                case, msg, done = cand, m, False
                break
    return history + [case], msg


def run(prop, seed, tier, known=(), saved=()):
    """Exit code, after printing the verdict and writing the evidence."""
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"ndmv-{prop.id}-")
    try:
        return _run(prop, seed, tier, known, saved, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, seed, tier, known, saved, scratch, t0):
    total = prop.quick if tier == "quick" else prop.thorough
    fails = []
    n_saved = 0
    for name, cases in saved:                       # replay tier: inputs that failed once
        n_saved += 1
        msg = isolated(prop, cases, scratch)
        if msg:
            fails.append((cases, f"[saved input {name}] {msg}"))
            break
    findings = 0
    for what, cases in known:
        if isolated(prop, cases, scratch):
            findings += 1
            print(f"KNOWN-FINDING: property={prop.id} {what}", flush=True)
    merged = {"n": 0, "keys": set(), "labels": collections.Counter(), "samples": []}
    if not fails:
        workers = max(1, min(8, os.cpu_count() or 1, total))
        ctx = mp.get_context("fork")
        stop = ctx.Event()
        procs = []
        for w in range(workers):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_shard, args=(prop, seed, w, workers, total, stop, b, scratch))
            p.start()
            b.close()
            procs.append((w, p, a))
        found = []
        for w, p, a in procs:
            try:
                r = a.recv()
            except EOFError:
                r = {"error": f"worker {w} died"}
            p.join()
            if "error" in r:
                print(r["error"], file=sys.stderr)
                return 3
            merged["n"] += r["n"]
            merged["keys"] |= r["keys"]
            merged["labels"] += r["labels"]
            merged["samples"] += r["samples"]
            if r["fail"]:
                found.append((r["fail"][0], w, r["fail"][1]))
        if found:
            i, w, msg = min(found)
            case = case_of(prop, seed, i)
            m = isolated(prop, [case], scratch)
            cases = [case]
            if not m:                                # needs the calls made before it
                before = [case_of(prop, seed, j) for j in range(w, i, workers)]
                k = 1
                while not m and k < 2 * len(before):
                    cases = before[-k:] + [case]
                    m = isolated(prop, cases, scratch, timeout=CASE_SECONDS * 10)
                    k *= 4
                if not m and before:
                    cases = before + [case]
                    m = isolated(prop, cases, scratch, timeout=CASE_SECONDS * 10)
            if m:
                cases, msg = shrink(prop, cases, m, scratch)
            fails.append((cases, msg))
    code = 0
    if fails:
        cases, msg = fails[0]
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop.id}-{key(cases).hex()}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop.id, "message": msg, "cases": cases}, f, indent=1)
        print("---- minimal failing case")
        print(prop.show(cases[-1])[:6000])
        if len(cases) > 1:
            print(f"---- (after {len(cases) - 1} earlier cases in the same process, see the replay file)")
        print("---- " + msg)
        print(f"VIOLATION property={prop.id} replay={path}", flush=True)
        code = 1
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": merged["n"] + n_saved, "distinct_nontrivial": len(merged["keys"]),
                       "rule": prop.rule, "samples": merged["samples"][:4] or ["stopped at a saved input"],
                       "classes": dict(sorted(merged["labels"].items())), "saved_inputs_replayed": n_saved,
                       "known_findings_seen": findings},
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop.id}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop.id}.json"))
    if code == 0:
        print(f"OK property={prop.id} cases={merged['n']} nontrivial={len(merged['keys'])} wall={time.time() - t0:.1f}s")
    return code
