"""C27-: nothing lost silently, values of the wrong type, ..."""
import copy
import json
import os
import random
import re
import sys
import threading
import warnings
import xml.etree.ElementTree as ET
from collections import Counter
from decimal import Decimal, InvalidOperation

from . import compare, gen, parse_kvn, parse_xml, render_kvn, render_xml, schema, shrinkers
from .base import (KEYVALUE, RULE_TREE, SEGMENTED, F, R, TreeProp, at, build, flat, leaves_of, must_equal, must_say, nodes,
                   read, render, tree_labels, write)
from .engine import CASE_SECONDS, Fail, Prop, api, rejects
from .props_sys import C24, FMTS, corpus, elements, small


# ---------------------------------------------------------------- C27
def keywords_of(root):
    """Every KVN keyword that a message type knows."""
    out, todo, seen = set(), [root], set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for f in schema.CLASSES[c]:
            if f["xml"].isupper():
                out.add(f["xml"])
            if f["type"] in schema.CLASSES:
                todo.append(f["type"])
    return out


KEYS = {r: keywords_of(r) for r in schema.ROOTS}
ALL_KEYS = sorted(set().union(*KEYS.values()))


def norm(s):
    s = re.sub(r"[\s\[\]]", "", str(s)).upper()
    try:
        d = Decimal(s)
        return "NaN" if d.is_nan() else d
    except (InvalidOperation, ValueError):
        return s


class Lost(Exception):
    pass


def nothing_lost(text, o):
    """Every value, comment and column of a KVN text that was read is in the object (as many times)."""
    have = Counter(norm(v) for v in flat(o).values())

    def take(*vs):
        need = Counter(norm(v) for v in vs)
        if any(have[k] < n for k, n in need.items()):
            return False
        have.subtract(need)
        return True
    rest = []
    for raw in text.split("\n"):
        line = raw.strip()
        if not line or line in parse_kvn.WORDS or line.startswith("CCSDS_"):
            continue                              # the version is fixed by the model classes
        if line.startswith("COMMENT"):
            c = line[7:].strip()
            c = c[1:].strip() if c.startswith("=") else c
            rest.append((line, [[c]]))
            continue
        key, eq, val = (x.strip() for x in line.partition("="))
        if not eq:
            rest.append((line, [line.split()]))
            continue
        m = re.fullmatch(r"(.*?)\[(.*)\]", val, re.S)
        ways = [[val]] + ([[m.group(1), m.group(2)], m.group(1).split() + [m.group(2)]] if m else []) + [val.split()]
        if key.startswith("USER_DEFINED_"):
            ways = [w + [key[len("USER_DEFINED_"):]] for w in ways]
        if val:
            rest.append((line, ways))
    for line, ways in sorted(rest, key=lambda x: len(x[1])):
        if not any(take(*[v for v in w if v.strip()]) for w in ways):
            raise Fail(f"the text was read, but its line {line[:80]!r} is not in the object")


class C27(Prop):
    id, quick, thorough = "C27", 12000, 150000
    rule = "a message with a line it cannot have (refusal expected), or damage that changes the text (refusal or nothing lost)"
    KINDS = ["unknown", "foreign", "text", "numbers", "surplus", "twice", "move", "damage", "marked", "valued", "tail"]
    MARKS = ["#", "//", "!", ";", "%", "--", "/*", "*", "REM ", "$", "@", "'", '"', "\\", "<!--", "~", ":", "...", "+", "_", "&", "?", "C "]

    def gen(self, rng, i):
        k = self.KINDS[i % len(self.KINDS)]
        c = {"kind": k, "seed": rng.randrange(10 ** 9)}
        if k == "damage":
            d = C24().gen(rng, i)
            while d["fmt"] != "kvn":
                d = C24().gen(rng, i)
            return dict(c, damage=d)
        return dict(c, tree=gen.sweep(rng, "kvn", schema.ROOTS, i * 7, max_list=2, rows=4))

    def edited(self, c):
        """(text, whether it must be refused)"""
        if c["kind"] == "damage":
            return C24().text(c["damage"]), False
        rng, k = random.Random(c["seed"]), c["kind"]
        ls = render_kvn.lines_of(c["tree"])
        j = rng.randrange(1, len(ls) + 1)
        must = True
        if k == "unknown":
            ls.insert(j, ("kv", rng.choice(["FOO", "UNKNOWN_KEYWORD", "EPOCHS", "XX", "USER_DEF", "OBJECTS", "Z_", "epoch", "X_Y_Z"]),
                          rng.choice(["1", "bar", "2000-01-01T00:00:00", "a b c"]), rng.choice([None, None, "km"]), "str"))
        elif k == "foreign":
            key = rng.choice([x for x in ALL_KEYS if x not in KEYS[c["tree"]["_c"]]])
            ls.insert(j, ("kv", key, rng.choice(["1", "5.5", "bar"]), None, "str"))
        elif k == "text":
            ls.insert(j, ("word", rng.choice(["HELLO", "some more words", "EPOCH", "X", "1.0km", "-", "2000-01-01", "META", "STOP"])
                          if c["tree"]["_c"] not in SEGMENTED else rng.choice(["HELLO", "some more words", "EPOCH", "X", "META", "DATA_END", "- -"])))
        elif k == "numbers":
            ls.insert(j, ("data", [rng.choice(["1.0", "2", "-3E-5", "0"]) for _ in range(rng.randrange(1, 7))]))
            inside = [l[1] for l in ls[:j] if l[0] == "word"][-1:] == ["COVARIANCE_START"]
            must = not inside                     # looks like two matrices there
        elif k == "surplus":
            rows = [n for n, l in enumerate(ls) if l[0] == "data" or l[0] == "kv" and l[4] == "obs"]
            if not rows:
                must = False
            else:
                n = rng.choice(rows)
                l = ls[n]
                if l[0] == "data":
                    ls[n] = ("data", l[1] + ["1.5"] * (4 if c["tree"]["_c"] == "Oem" and "T" in l[1][0] else 1))
                else:
                    extra = rng.choice([" 1.5", " [km]", " x"])
                    must = "[" not in extra       # angles have units
                    ls[n] = (l[0], l[1], l[2] + extra, None, "obs")
        elif k == "marked":                       # not one of the ways to say comment in KVN
            m = rng.choice(self.MARKS)
            ls.insert(j, ("word", m + rng.choice(["", " ", m]) + rng.choice(["note", "a b", "EPOCH = 2000-01-01T00:00:00", "X = 1 [km]", "", "COMMENT x"])))
        elif k == "valued":                       # structure words have no value
            rows = [n for n, l in enumerate(ls) if l[0] == "word"]
            if not rows:
                must = False
            else:
                n = rng.choice(rows)
                ls[n] = ("kv", ls[n][1], rng.choice(["1", "2000-01-01T00:00:00", "note", "EPOCH", "a = b", "META_STOP"]), rng.choice([None, None, "km"]), "str")
        elif k == "tail":                         # text behind a data line or a structure word
            rows = [n for n, l in enumerate(ls) if l[0] in ("data", "word")]
            if not rows:
                must = False
            else:
                n = rng.choice(rows)
                if rng.random() < 0.5:
                    n = rng.choice([m for m in rows if ls[m][0] == "data"] or rows)
                l = ls[n]
                extra = rng.choice([" = 5", "=x", " = 1 [km]", " [km]", " # x", " x", " = 2000-01-01T00:00:00 1"] if l[0] == "word" else
                                   [" = 5", "=x", " = 1 [km]", " = 2000-01-01T00:00:00 1", " = note", " = a = b"])
                ls[n] = ("word", l[1] + extra if l[0] == "word" else "  ".join(l[1]) + extra)
        elif k == "twice":
            rows = [n for n, l in enumerate(ls) if l[0] == "kv" and n and not l[1].startswith(("MAN_", "USER_DEFINED_")) and l[4] != "obs"
                    and not (c["tree"]["_c"] == "Cdm" and l[1] == "OBJECT") and not (c["tree"]["_c"] == "Oem" and l[1] in ("EPOCH", "COV_REF_FRAME"))]
            n = rng.choice(rows)
            ls.insert(n + rng.choice([0, 1]), ls[n])
        elif k == "move":
            l = ls.pop(rng.randrange(1, len(ls)))
            ls.insert(rng.randrange(1, len(ls) + 1), l)
            must = False
        return render_kvn.text(ls), must

    def check(self, c):
        s, must = self.edited(c)
        if must:
            for io in (R().NdmIo, R().NdmKvnIo):
                rejects(f"{io.__name__}: KVN with a line that has no place in it ({c['kind']})", lambda: io().from_string(s))
            return
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = R().NdmIo().from_string(s)
        except Exception:
            return
        nothing_lost(s, o)

    def nontrivial(self, c):
        return c["kind"] != "damage" or C24().nontrivial(c["damage"])

    def labels(self, c):
        return ["edit:" + c["kind"]] + (["type:" + c["tree"]["_c"]] if "tree" in c else [])

    def shrink(self, c):
        if c["kind"] == "damage":
            for d in C24().shrink(c["damage"]):
                yield dict(c, damage=d)
            return
        for t in shrinkers.trees(c["tree"]):
            if t is not None:
                for j in range(3):
                    yield dict(c, tree=t, seed=c["seed"] + j)

    def show(self, c):
        return self.edited(c)[0]


# ---------------------------------------------------------------- C28
NOT_NUMBERS = ["abc", "1,5", "--1", "1e", "0x1F", "12abc", "1.2.3", "+", "1E5.5", "O", "l", "1-2", "*", "N/A", "NONE", "1/2", "10%", "1:30"]


class C28(Prop):
    id, quick, thorough = "C28", 6000, 80000
    rule = "a value of a message of at least 15 values is replaced by a text that its type does not have"

    def gen(self, rng, i):
        fmt = FMTS[i % 2]
        t = gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=2, rows=4)
        groups = {}
        for path, f in leaves_of(t):
            if f["type"] == "str" or f.get("fixed") is not None or f["py"] in ("angle", "rate", "parameter"):
                continue
            groups.setdefault((f["py"], f["type"]), []).append((path, f))
        if not groups:
            return {"fmt": fmt, "tree": t, "path": None, "new": ""}
        path, f = rng.choice(groups[rng.choice(sorted(groups))])
        if f["type"] in ("Decimal", "int"):
            new = rng.choice(NOT_NUMBERS + (["1.5", "1E400"] if f["type"] == "int" else []))
        else:
            vs = schema.ENUMS[f["type"]]
            v = rng.choice(vs)
            new = rng.choice([v + "X", "X" + v, v[:-1] or "Q", v + v, "FOO", "1", v.swapcase(), "none"])
            if new in vs or any(new.strip() == x for x in vs):
                new = "FOO-BAR"
        return {"fmt": fmt, "tree": t, "path": list(path), "new": new}

    def damaged(self, c):
        t = copy.deepcopy(c["tree"])
        if c["path"]:
            at(t, c["path"][:-1])[c["path"][-1]] = c["new"]
        return t

    def check(self, c):
        t = self.damaged(c)
        s = render(t, c["fmt"])
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            read(render(c["tree"], c["fmt"]))
        seen = [w for w in seen if not issubclass(w.category, (DeprecationWarning, ResourceWarning))]
        if seen:
            raise Fail(f"a valid message was read with a warning: {seen[0].message}")
        for low in (False, True):
            io = (R().NdmKvnIo if c["fmt"] == "kvn" else R().NdmXmlIo)() if low else R().NdmIo()
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                try:
                    o = io.from_string(s)
                except Exception:
                    continue                      # refused
            if not c["path"]:
                continue
            name = "/" + "".join("[%d]" % p if isinstance(p, int) else "/" + p for p in c["path"])[1:]
            if not [w for w in seen if not issubclass(w.category, (DeprecationWarning, ResourceWarning))]:
                raise Fail(f"{type(io).__name__}: {name} = {c['new']!r} was read without an error or a warning: {self.value(o, c)!r}")
            got = self.value(o, c)
            if not isinstance(got, str) or got != c["new"]:
                raise Fail(f"{type(io).__name__}: {name} = {c['new']!r} was read as {got!r}")
            d = [x for x in compare.diff(t, o, kvn=c["fmt"] == "kvn") if not x.startswith(name + ":")]
            if d and c["path"][-1] not in ("quaternion_type", "euler_rot_seq", "attitude_type"):   # (these say what the columns are)
                raise Fail(f"{type(io).__name__}: the bad value at {name} changed something else: {d[:3]}")

    def value(self, o, c):
        try:
            return at(o, c["path"])
        except (AttributeError, IndexError, TypeError):
            return None

    def nontrivial(self, c):
        return bool(c["path"]) and schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        if not c["path"]:
            return ["no typed value"]
        f = [f for p, f in leaves_of(c["tree"]) if list(p) == c["path"]][0]
        return ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"], "value:" + ("number" if f["type"] in ("Decimal", "int") else "unit" if f["py"] == "units" else "enumeration")]

    def shrink(self, c):
        keep = at(c["tree"], c["path"]) if c["path"] else None
        for t in shrinkers.trees(c["tree"]):
            if t is None:
                continue
            try:
                if c["path"] is None or at(t, c["path"]) == keep:
                    yield dict(c, tree=t)
            except (KeyError, IndexError, TypeError):
                pass

    def show(self, c):
        return f"{c['path']} = {c['new']}\n" + render(self.damaged(c), c["fmt"])


# ---------------------------------------------------------------- C29
class Schedule:
    """Runs functions in threads, one at a time; at the calls made in the libraries and the lines of the
    code under test, a seeded choice says which thread goes on.  The interleaving is a function of the seed."""

    here = threading.local()
    hooked = False

    def __init__(self, seed, p):
        self.rng, self.p, self.switches = random.Random(seed), p, 0
        if not Schedule.hooked:                       # (hooks cannot be removed)
            Schedule.hooked = True
            sys.addaudithook(Schedule.audit)

    @staticmethod
    def audit(event, args):
        """Files are what threads share whatever the code does: calls that open, move or remove one of the scratch folder are points to switch at."""
        me = getattr(Schedule.here, "me", None)
        if me is None or event not in ("open", "os.rename", "os.remove", "os.link", "os.truncate") or not args:
            return
        if isinstance(args[0], (str, os.PathLike)) and os.path.dirname(os.path.abspath(args[0])) == os.getcwd():
            Schedule.here.s.switch(me, 0.6)

    def switch(self, me, p=None):
        if self.rng.random() >= (self.p if p is None else p) or len(self.live) < 2:
            return
        nxt = self.rng.choice(self.live)
        if nxt != me:
            self.switches += 1
            self.sems[nxt].release()
            self.sems[me].acquire()

    def run(self, fns):
        out = [None] * len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.live = list(range(len(fns)))

        def body(me):
            self.sems[me].acquire()

            def line(frame, event, arg):
                if event == "line":
                    self.switch(me)
                return line

            def call(frame, event, arg):
                name = frame.f_code.co_filename
                if "/ccsds_ndm/" in name:
                    self.switch(me)
                    return line
                if "/xsdata/formats/dataclass/" in name:
                    self.switch(me)
                return None
            self.here.me, self.here.s = me, self
            sys.settrace(call)
            try:
                out[me] = ("ok", fns[me]())
            except BaseException as e:
                out[me] = ("error", e)
            finally:
                sys.settrace(None)
                self.here.me = None
                self.live.remove(me)
                if self.live:
                    self.sems[self.rng.choice(self.live)].release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        for t in ts:
            t.start()
        self.sems[self.rng.choice(self.live)].release()
        for t in ts:
            t.join(CASE_SECONDS)
        if any(x is None for x in out):
            raise Fail("HANG: threads with their own readers and writers do not end")
        return out


class C29(Prop):
    id, quick, thorough = "C29", 900, 15000
    rule = "at least two threads, each with its own reader or writer, switched at least twice"

    def gen(self, rng, i):
        jobs = []
        same, files = rng.choice([None, "kvn", "xml"]), rng.random() < 0.3
        for _ in range(rng.choice([2, 2, 3, 4])):
            fmt = same or rng.choice(FMTS)
            jobs.append({"op": rng.choice(["read", "read", "write", "both"]), "fmt": fmt, "low": rng.random() < 0.4,
                         "tree": small(rng, "kvn", rng.choice(schema.ROOTS), rows=2, data_units=False), "file": files and rng.random() < 0.8,
                         "kw": {k: rng.choice(["http://x/y.xsd", "urn:a http://x/a.xsd"]) for k in ("schema_location", "no_namespace_schema_location") if rng.random() < 0.3}
                         if fmt == "xml" else {}})
        if rng.random() < 0.2:
            jobs[1] = dict(jobs[0])
        return {"jobs": jobs, "seed": rng.randrange(10 ** 9), "p": rng.choice([0.0, 0.02, 0.1] if files else [0.02, 0.1, 0.5])}

    def job(self, k, j, inputs):
        fmt, text, obj = inputs
        io = (R().NdmKvnIo if fmt == "kvn" else R().NdmXmlIo)() if j["low"] else R().NdmIo()
        kw, f, p = j.get("kw", {}), [] if j["low"] else [F(fmt)], f"thread{k}.ndm"

        def get():
            if not j.get("file"):
                return io.from_string(text)
            with open(p, "w", encoding="utf-8", newline="") as fh:
                fh.write(text)
            return io.from_path(p)

        def out(o):
            if not j.get("file"):
                return io.to_string(o, *f, **kw)
            io.to_file(o, *f, p, **kw)
            with open(p, encoding="utf-8", newline="") as fh:
                return fh.read()
        if j["op"] == "read":
            return get(), None
        if j["op"] == "write":
            return None, out(obj)
        o = get()
        return o, out(o)

    def check(self, c):
        inputs = [(j["fmt"], render(j["tree"], j["fmt"]), build(j["tree"])) for j in c["jobs"]]
        for (f, text, o), j in zip(inputs, c["jobs"]):      # alone first (and once, so that nothing is being cached for the first time only here)
            if j is c["jobs"][0]:
                read(text)
        s = Schedule(c["seed"], c["p"])
        res = s.run([lambda k=k, j=j, x=x: self.job(k, j, x) for k, (j, x) in enumerate(zip(c["jobs"], inputs))])
        self.switches = s.switches
        for k, (j, (state, r)) in enumerate(zip(c["jobs"], res)):
            what = f"thread {k} ({j['op']} {j['fmt']}) among {len(res)} threads with their own I/O objects"
            if state == "error":
                raise Fail(f"{what} raised {type(r).__name__}: {str(r)[:300]}")
            if r[0] is not None:
                must_equal(j["tree"], r[0], what, kvn=j["fmt"] == "kvn")
            if r[1] is not None and j["op"] == "write":
                must_say(j["tree"], r[1], j["fmt"], what, {{"schema_location": "schemaLocation"}.get(x, "noNamespaceSchemaLocation"): v for x, v in j.get("kw", {}).items()})
            if r[1] is not None and j["op"] == "both":
                must_equal(j["tree"], read(r[1]), what + ", read back", kvn=j["fmt"] == "kvn")

    def nontrivial(self, c):
        return getattr(self, "switches", 9) >= 2 and len(c["jobs"]) > 1 and sum(schema.count_leaves(j["tree"]) for j in c["jobs"]) >= 15

    def labels(self, c):
        return [f"threads:{len(c['jobs'])}", f"switch:{c['p']}"] + [f"job:{j['op']} {j['fmt']}" for j in c["jobs"]] + ["type:" + j["tree"]["_c"] for j in c["jobs"]]

    def shrink(self, c):
        if len(c["jobs"]) > 2:
            for k in range(len(c["jobs"])):
                for d in range(3):
                    yield dict(c, jobs=c["jobs"][:k] + c["jobs"][k + 1:], seed=c["seed"] + d)
        for k, j in enumerate(c["jobs"]):
            for t in shrinkers.trees(j["tree"]):
                if t is not None:
                    yield dict(c, jobs=c["jobs"][:k] + [dict(j, tree=t)] + c["jobs"][k + 1:])

    def show(self, c):
        return json.dumps([{k: v for k, v in j.items() if k != "tree"} for j in c["jobs"]]) + "\n" + \
            "\n".join(render(j["tree"], j["fmt"]) for j in c["jobs"])[:3000]


# ---------------------------------------------------------------- C30
ROW_TYPES = ("StateVectorAccType", "OemCovarianceMatrixType", "AttitudeStateType", "TrackingDataObservationType")


class C30(Prop):
    id, quick, thorough = "C30", 12000, 80000
    rule = "one to three values of a message of at least 15 values are missing"

    def gen(self, rng, i):
        fmt = FMTS[i % 2]
        t = gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=2, rows=4, data_units=False)
        gone = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            cut = self.remove(rng, self.missing(t, gone), fmt)
            if cut:
                gone.append(cut)
        if t["_c"] in ("Aem", "Tdm") and rng.random() < 0.25:   # two values where a data line has one
            return {"fmt": fmt, "tree": t, "gone": [], "extra": self.alternative(rng, t)}
        return {"fmt": fmt, "tree": t, "gone": gone}

    def alternative(self, rng, t):
        rows = [(p, n) for p, cl, n in schema.walk(t) if cl in ("AttitudeStateType", "TrackingDataObservationType")]
        p, n = rng.choice(rows)
        f = rng.choice([f for f in schema.CLASSES[n["_c"]] if f["py"] not in ("epoch", "comment") and f["py"] not in n])
        prof = gen.Profile(rng, "kvn")
        prof.data_units = False
        v = gen.node(rng, prof, f["type"]) if f["type"] in schema.CLASSES else gen.leaf(rng, prof, f)
        return [list(p), f["py"], v]

    def remove(self, rng, t, fmt):
        """A path to set to None: a scalar, a valued node, or the value of one."""
        inrow = lambda p: any(x in ("state_vector", "attitude_state", "observation", "covariance_matrix") for x in p) and t["_c"] in SEGMENTED
        ps = []
        for p, f in leaves_of(t):
            if f.get("fixed") is not None or isinstance(p[-1], int):
                continue
            ps.append(p)
            if f["kind"] == "text" and not isinstance(p[-2], int):
                ps.append(p[:-1])
        rows = [p for p in ps if inrow(p)]
        ps = rows if rows and rng.random() < 0.4 else ps
        if t["_c"] == "Aem" and rng.random() < 0.1:
            ps = [p for p in ps if p[-1] == "quaternion_type"] or ps
        return list(rng.choice(ps)) if ps else None

    def crowded(self, c):
        """A data line with two values is refused, or no value is left out."""
        p, k, v = c["extra"]
        t = copy.deepcopy(c["tree"])
        at(t, p)[k] = v
        gen.reorder(at(t, p)["_c"], at(t, p))
        o = build(t)
        try:
            s = R().NdmIo().to_string(o, F(c["fmt"]))
        except Exception:
            return
        if c["fmt"] == "xml":
            return must_say(t, s, "xml", f"the XML written with another {k}")
        words = Counter(re.split(r"[\s=\[\]]+", s))
        for path, f in leaves_of(at(t, p)):
            x = str(at(build(at(t, p)), path))
            if f["type"] in ("Decimal", "int") and not words[x]:
                raise Fail(f"KVN written for a data line with another {k}: {x} is left out")
        try:
            n = sum(1 for _ in leaves_of(t))
            back = flat(R().NdmIo().from_string(s))
        except Exception:
            return
        have = [str(x) for key, x in back.items()]
        for path, f in leaves_of(at(t, p)):
            if f["type"] in ("Decimal", "int") and str(at(build(at(t, p)), path)) not in have:
                raise Fail(f"KVN written for a data line with another {k} was read back without {at(at(t, p), path)}")

    def missing(self, t, gone):
        t = copy.deepcopy(t)
        for p in gone:
            at(t, p[:-1]).pop(p[-1], None)
        return t

    def broken_rows(self, t):
        """Whether a data line of the incomplete message cannot be written in KVN."""
        for p, c, n in schema.walk(t):
            if c in ("StateVectorAccType", "OemCovarianceMatrixType", "TrackingDataObservationType") and t["_c"] in SEGMENTED:
                vs = [f for f in schema.CLASSES[c] if f["py"] not in ("comment", "cov_ref_frame", "x_ddot", "y_ddot", "z_ddot")]
                if c == "TrackingDataObservationType":
                    if "epoch" not in n or len([k for k in n if k not in ("_c", "epoch")]) != 1:
                        return "observation"
                elif any(f["py"] not in n for f in vs):
                    return "columns"
                acc = [k for k in ("x_ddot", "y_ddot", "z_ddot") if k in n]
                if len(acc) not in (0, 3):
                    return "accelerations"
                if any(isinstance(v, dict) and "value" not in v for v in n.values()):
                    return "value"
            if c == "AemSegment":
                for st in n["data"]["attitude_state"]:
                    if len(st) != 2:
                        return "state"
                    (a,) = [v for k, v in st.items() if k != "_c"]
                    if self.holes(a):
                        return "attitude"
                if n["metadata"].get("attitude_type", "Q").upper().startswith("QUATERNION") and "quaternion_type" not in n["metadata"] \
                        and any(k.startswith("quaternion") for st in n["data"]["attitude_state"] for k in st):
                    return "quaternion type"
        return None

    def holes(self, n):
        for f in schema.CLASSES[n["_c"]]:
            if f["py"] in ("comment", "units", "angle", "rate"):
                continue
            v = n.get(f["py"])
            if v is None or isinstance(v, dict) and self.holes(v):
                return True
        return False

    def check(self, c):
        if c.get("extra"):
            return self.crowded(c)
        t = self.missing(c["tree"], c["gone"])
        o = build(c["tree"])
        for p in c["gone"]:
            setattr(at(o, p[:-1]), p[-1], None)
        must_equal(t, o, "the incomplete object")
        try:
            s = R().NdmIo().to_string(o, F(c["fmt"]))
        except Exception:
            return                                # refused
        if c["fmt"] == "kvn":
            why = self.broken_rows(t)
            if why:
                raise Fail(f"KVN written for an object without {['/'.join(map(str, p)) for p in c['gone']]} (incomplete {why})")
            t = self.without_nodes(t)
        must_say(t, s, c["fmt"], f"the {c['fmt'].upper()} written without {['/'.join(map(str, p)) for p in c['gone']]}")

    def without_nodes(self, t):
        """KVN has no line for an element that has no value."""
        for f in schema.CLASSES[t["_c"]]:
            v = t.get(f["py"])
            if f["type"] not in schema.CLASSES or v is None:
                continue
            if f.get("list") and f["py"] == "user_defined":
                for e in v:
                    e.setdefault("value", "")
            elif f.get("list"):
                for e in v:
                    self.without_nodes(e)
            elif schema.is_valued(f["type"]) and "value" not in v:
                del t[f["py"]]
            else:
                self.without_nodes(v)
        return t

    def nontrivial(self, c):
        return bool(c["gone"] or c.get("extra")) and schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        t = self.missing(c["tree"], c["gone"])
        out = ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"], f"missing:{len(c['gone'])}"] + ["one value too many"] * bool(c.get("extra"))
        if c["fmt"] == "kvn" and self.broken_rows(t):
            out.append("data line:" + self.broken_rows(t))
        return out

    def shrink(self, c):
        for k in range(len(c["gone"])):
            if len(c["gone"]) > 1:
                yield dict(c, gone=c["gone"][:k] + c["gone"][k + 1:])
        for t in shrinkers.trees(c["tree"]):
            try:
                if t is not None and all(at(t, p) is not None for p in c["gone"]) and (not c.get("extra") or at(t, c["extra"][0]) and c["extra"][1] not in at(t, c["extra"][0])):
                    yield dict(c, tree=t)
            except (KeyError, IndexError, TypeError):
                pass

    def show(self, c):
        return f"without {c['gone']}, with {c.get('extra')}\n" + render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C31
EVIL = ["X\nOBJECT_ID = EVIL", "X\r\nEPOCH = 1999-01-01T00:00:00", "X\rY", "a\nb\n\nc", "\nX", "X\n", "\n", "X\nMETA_STOP", "X\nDATA_STOP\nMETA_START",
        "X\nCOMMENT Y", "X\n</OBJECT_NAME><OBJECT_NAME>Y", "<![CDATA[x]]>", "]]>", "&#10;", "<!-- -->", "<?pi?>", "a\tb", "\tX\t", "  X  ", "a  b", "",
        "\x00", "a\x01b", "\x1b[0m", "\x7f", "\x85", "a\u2028b", "a\u2029b", "\ufeffX", "\ud800", "a\udfffb", "\ufffe", "\uffff", "\U0010ffff", "\u202eX",
        "é\u0301", "中文", "😀", "X" * 5000, "x=y\nz=w", "X\x0bY", "X\x0cY", "X\x1cY", "X\x1dY\x1eZ", "CCSDS_OPM_VERS = 3.0\nX", "{}", "%s%n", "\\n", "'\"",
        "X\u00a0Y", "[km]\n[s]", "1\n2", "- \n-"]
EVIL_TOKEN = ["", " ", "2000-01-01 00:00:00", "X Y", "2000 001", "2000-01-01T00:00:00\n2000-01-02T00:00:00", "2000-01-01T00:00:00 1 2 3", "\t", "a\tb"]


def xml_chars(s):
    return all(ch in "\t\n\r" or " " <= ch <= "\ud7ff" or "\ue000" <= ch <= "\ufffd" or ch >= "\U00010000" for ch in s)


class C31(Prop):
    id, quick, thorough = "C31", 9000, 80000
    rule = "at least one text of a message of at least 15 values is hostile (line breaks, markup, control characters, lone surrogates, ...)"

    def gen(self, rng, i):
        fmt = FMTS[i % 2]
        t = gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=2, rows=4, data_units=False)
        n = 0
        for _ in range(rng.choice([1, 1, 2, 4])):
            ls = [(p, f) for p, f in leaves_of(t) if f["type"] == "str" and f.get("fixed") is None]
            texts = [x for x in ls if not x[1].get("pattern")]
            p, f = rng.choice(texts if texts and rng.random() < 0.8 else ls) if rng.random() < 0.85 else ls[-1]
            if f.get("pattern"):
                v = rng.choice(EVIL_TOKEN)
            elif rng.random() < 0.25:
                v = "".join(rng.choice(["\n", "\r", "\t", " ", "=", "X", "Ab", "\x00", "\ud800", "é", "[", "]", "<", "&", "COMMENT", "META_START"]) for _ in range(rng.randrange(1, 9)))
            elif f["py"] == "parameter":
                v = rng.choice(EVIL + ["A = B", "A=B", "=", "A B", "a"])
            else:
                v = rng.choice(EVIL)
                if f["py"] == "comment" and rng.random() < 0.02:
                    v = rng.choice(["L\n", "\r\n", "a\rb\n"]) * rng.choice([300, 1200]) + "E"
            if f["py"] == "cov_ref_frame" and not v:                # (an empty frame is no frame)
                v = "X Y"
            names = [at(t, q).upper().strip() for q, g in ls if g["py"] == "parameter" and q != p]
            if f["py"] == "parameter" and v.upper().strip() in names:   # (KVN keywords are unique)
                v = "QQ%d" % n
            at(t, p[:-1])[p[-1]] = v
            n += 1
        return {"fmt": fmt, "tree": t, "n": n, "file": rng.random() < 0.3}

    def expected(self, t):
        """What KVN keeps of the texts: comments line by line, no white space around, upper case names."""
        t = copy.deepcopy(t)
        for _, _, n in schema.walk(t):
            for f in schema.CLASSES[n["_c"]]:
                v = n.get(f["py"])
                if f["py"] == "comment" and v:
                    n["comment"] = [x.strip() for s in v for x in s.replace("\r\n", "\n").replace("\r", "\n").split("\n")]
                elif f["py"] == "parameter" and isinstance(v, str):
                    n["parameter"] = v.upper().rstrip()
                elif f["type"] == "str" and isinstance(v, str):
                    n[f["py"]] = v.strip()
        return t

    def check(self, c):
        t, fmt = c["tree"], c["fmt"]
        o = build(t)
        strs = [at(t, p) for p, f in leaves_of(t) if f["type"] == "str"]
        try:
            s = R().NdmIo().to_string(o, F(fmt))
        except Exception as e:
            if not any(self.special(at(t, p), fmt, f) for p, f in leaves_of(t) if f["type"] == "str"):
                raise Fail(f"writing {fmt.upper()} raised {type(e).__name__}: {str(e)[:200]}")
            return
        if c["file"]:
            try:
                R().NdmIo().to_file(o, F(fmt), "evil.ndm")
                back = R().NdmIo().from_path("evil.ndm")
            except Exception as e:
                if all(map(xml_chars, strs)) and all(x == x.strip() and x for x in strs):
                    raise Fail(f"writing {fmt.upper()} to a file and reading it raised {type(e).__name__}: {str(e)[:200]}")
                return
        else:
            try:
                back = R().NdmIo().from_string(s)
            except Exception as e:
                if all(map(xml_chars, strs)) and all(x == x.strip() and x for x in strs):
                    raise Fail(f"the {fmt.upper()} written could not be read back: {type(e).__name__}: {str(e)[:200]}")
                return
        if fmt == "xml":
            must_say(t, s, fmt, "the XML written with hostile texts")
            must_equal(t, back, "the XML written with hostile texts, read back")
        else:
            must_equal(self.expected(t), back, "the KVN written with hostile texts, read back", kvn=True)

    def special(self, x, fmt, f):
        """Texts that may be refused."""
        return not xml_chars(x) or fmt == "kvn" and (f["py"] != "comment" and any(ch in x for ch in "\n\r") or f["py"] == "parameter" and "=" in x
                                                     or bool(f.get("pattern")) and x.split() != [x])

    def nontrivial(self, c):
        return schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        strs = [at(c["tree"], p) for p, f in leaves_of(c["tree"]) if f["type"] == "str"]
        out = ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"]]
        for name, chars in (("line break", "\n\r"), ("tab", "\t"), ("lone surrogate", "\ud800\udfff"), ("control character", "\x00\x01\x1b\x0b\x0c\x1c")):
            if any(ch in x for x in strs for ch in chars):
                out.append("text:" + name)
        return out

    def shrink(self, c):
        if c["file"]:
            yield dict(c, file=False)
        for t in shrinkers.trees(c["tree"]):
            if t is not None:
                yield dict(c, tree=t)

    def show(self, c):
        return ascii(c["tree"])


# ---------------------------------------------------------------- C32
class C32(Prop):
    id, quick, thorough = "C32", 8000, 60000
    rule = "at least three numbers of the message are given as int, float or str instead of Decimal"

    def gen(self, rng, i):
        fmt = FMTS[i % 2]
        t = gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=2, rows=4, data_units=False)
        plain = []
        for p, f in leaves_of(t):
            if f["type"] in ("Decimal", "int") and rng.random() < 0.6:
                kind = rng.choice(["int", "float", "str", "float"] if f["type"] == "Decimal" else ["int", "str"])
                if kind == "int":
                    v = int(Decimal(at(t, p))) if abs(Decimal(at(t, p))) < 10 ** 20 else 7
                elif kind == "float":
                    v = rng.choice([0.1, 1e22, 1e-7, 1.5e300, 5e-324, -0.0, 0.1 + 0.2, 123456789.123456789, float(Decimal(at(t, p)))])
                    if f.get("hi") is not None or f.get("lo") is not None:
                        v = float(Decimal(at(t, p)))
                    v = v if abs(v) < 1e301 else 1.5e300 if v > 0 else -1.5e300
                else:
                    v = at(t, p)
                at(t, p[:-1])[p[-1]] = v if kind == "str" else repr(v)
                plain.append([list(p), kind])
        return {"fmt": fmt, "tree": t, "plain": plain}

    def check(self, c):
        o = build(self.buildable(c["tree"]))
        for p, kind in c["plain"]:
            v = at(c["tree"], p)
            setattr(at(o, p[:-1]), p[-1], {"int": int, "float": float, "str": str}[kind](v))
        s = write(o, c["fmt"])
        must_say(c["tree"], s, c["fmt"], f"the {c['fmt'].upper()} written from int, float and str numbers")
        must_equal(c["tree"], read(s), f"the {c['fmt'].upper()} written from int, float and str numbers, read back", kvn=c["fmt"] == "kvn")

    def buildable(self, t):
        return t

    def nontrivial(self, c):
        return len(c["plain"]) >= 3

    def labels(self, c):
        return ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"]] + ["number:" + k for _, k in c["plain"]]

    def shrink(self, c):
        for k in range(len(c["plain"])):
            if len(c["plain"]) > 1:
                yield dict(c, plain=c["plain"][:k] + c["plain"][k + 1:])
        for t in shrinkers.trees(c["tree"]):
            if t is None:
                continue
            try:
                if all(at(t, p) == at(c["tree"], p) for p, _ in c["plain"]):
                    yield dict(c, tree=t)
            except (KeyError, IndexError, TypeError):
                pass

    def show(self, c):
        return f"{c['plain']}\n" + render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C33
ROUNDINGS = ["ROUND_HALF_EVEN", "ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_05UP"]


class C33(Prop):
    id, quick, thorough = "C33", 260, 6000
    rule = "several messages read and written in a process whose environment differs in at least two settings"

    def gen(self, rng, i):
        texts = []
        for j in range(8):
            fmt = rng.choice(FMTS)
            if rng.random() < 0.2:
                texts.append([C24().text(C24().gen(rng, rng.randrange(1000))), None])
                continue
            t = gen.sweep(rng, fmt, schema.ROOTS, i * 8 + j, rows=4, max_list=3)
            m = render_kvn if fmt == "kvn" else render_xml
            texts.append([m.text(t, m.style(rng)), rng.choice([None, fmt])])
        texts = [t for t in texts if isinstance(t[0], str)]
        env = {"PYTHONHASHSEED": str(rng.randrange(1, 10 ** 6))}
        for k, vs in {"TZ": ["UTC", "Asia/Tokyo", "XXX+11:30", "America/St_Johns"], "LC_ALL": ["C", "POSIX", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"],
                      "PYTHONUTF8": ["0", "1"], "PYTHONOPTIMIZE": ["1", "2"], "PYTHONINTMAXSTRDIGITS": ["0", "640"], "PYTHONDEVMODE": ["1"],
                      "PYTHONIOENCODING": ["ascii", "latin-1", "utf-16"], "HOME": ["/nonexistent"], "LANG": ["tr_TR.UTF-8", "C"],
                      "COLUMNS": ["20"], "SOURCE_DATE_EPOCH": ["0"], "PYTHONNOUSERSITE": ["1"], "NO_COLOR": ["1"], "USER": ["nobody"]}.items():
            if rng.random() < 0.4:
                env[k] = rng.choice(vs)
        context = None
        if rng.random() < 0.6:
            context = {"prec": rng.choice([1, 2, 3, 6, 9, 28, 60]), "rounding": rng.choice(ROUNDINGS), "emax": rng.choice([3, 99, 999999]),
                       "capitals": 1, "clamp": rng.choice([0, 1])}
        return {"texts": texts, "env": env, "context": context}

    def child(self, c, env, context):
        import subprocess
        import tempfile
        from . import engine
        with tempfile.TemporaryDirectory(dir=".") as d:
            d = os.path.abspath(d)
            with open(d + "/in", "w") as f:
                json.dump({"texts": c["texts"], "context": context}, f)
            os.mkdir(d + "/cwd")
            e = {k: v for k, v in os.environ.items() if k in ("PATH", "NDMV_REPO", "LD_LIBRARY_PATH", "PYTHONPATH", "PYTHONDONTWRITEBYTECODE")}
            e.update(env)
            e["PYTHONPATH"] = engine.ROOT + (os.pathsep + e["PYTHONPATH"] if e.get("PYTHONPATH") else "")
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ndmv.envchild", d + "/in", d + "/out"], cwd=d + "/cwd", env=e,
                               stdin=subprocess.DEVNULL, capture_output=True, timeout=engine.CASE_SECONDS - 10)
            if p.returncode or not os.path.exists(d + "/out"):
                raise Fail(f"reading and writing failed under {env}: {p.stderr.decode(errors='replace')[-500:]}")
            return json.load(open(d + "/out", encoding="utf-8"))

    def check(self, c):
        from .envchild import outcome
        here = json.loads(json.dumps([outcome(t, low) for t, low in c["texts"]]))
        there = self.child(c, c["env"], c["context"])
        for (t, low), a, b in zip(c["texts"], here, there):
            if a == b:
                continue
            what = ["what was read", "the KVN written", "the XML written", "what was read from a file", "the KVN file written", "the XML file written"]
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), 0)
            x, y = a[k], b[k]
            if isinstance(x, dict) and isinstance(y, dict):
                n = next((n for n in list(x) + list(y) if x.get(n) != y.get(n)), "order")
                x, y = (n, x.get(n)), (n, y.get(n))
            elif isinstance(x, str) and isinstance(y, str):
                x, y = next(((p, q) for p, q in zip(x.split("\n") + [""], y.split("\n") + [""]) if p != q), (x, y))
            raise Fail(f"{what[k]} depends on the environment ({c['env']}, decimal context {c['context']}): {str(x)[:200]} becomes {str(y)[:200]}")

    def nontrivial(self, c):
        return len(c["texts"]) > 2 and len(c["env"]) + bool(c["context"]) >= 2

    def labels(self, c):
        return ["set:" + k for k in c["env"]] + (["set:decimal context"] if c["context"] else [])

    def shrink(self, c):
        if len(c["texts"]) > 1:
            for t in c["texts"]:
                yield dict(c, texts=[t])
        if c["context"]:
            yield dict(c, context=None)
        for k in c["env"]:
            yield dict(c, env={x: v for x, v in c["env"].items() if x != k})

    def show(self, c):
        return f"{c['env']} {c['context']}\n" + "\n----\n".join(t for t, _ in c["texts"])


# ---------------------------------------------------------------- C34
class C34(Prop):
    id, quick, thorough = "C34", 5000, 60000
    rule = "a message of at least 15 values copied in one of the ways Python offers"
    WAYS = ["copy", "deepcopy", "pickle", "replace", "deepcopy of pickle"]

    def gen(self, rng, i):
        fmt = rng.choice(FMTS)
        combined = rng.random() < 0.1
        t = gen.combined(rng) if combined else gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=3, rows=4)
        return {"fmt": "xml" if combined else fmt, "tree": t, "way": rng.choice(self.WAYS), "protocol": rng.randrange(0, 6),
                "source": "read" if combined else rng.choice(["read", "read", "build"]), "written": rng.random() < 0.3, "pick": rng.randrange(10 ** 9)}

    def check(self, c):
        import dataclasses
        import pickle
        o = read(render(c["tree"], c["fmt"])) if c["source"] == "read" else build(c["tree"])
        fmts = [c["fmt"]] if not isinstance(o, R().models.Ndm) else ["xml"]
        if c["written"]:
            write(o, fmts[0])
        before = flat(o)
        p = min(c["protocol"], pickle.HIGHEST_PROTOCOL)
        way = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x, p)), "replace": dataclasses.replace,
               "deepcopy of pickle": lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x, p)))}[c["way"]]
        n = api(f"{c['way']} of an object", way, o)
        if type(n) is not type(o) or flat(n) != before:
            raise Fail(f"{c['way']}: the copy holds something else: " + str([k for k in dict(before, **flat(n)) if before.get(k) != flat(n).get(k)][:4]))
        if not n == o or n != o:
            raise Fail(f"{c['way']}: the copy is not equal to the original")
        for other in (None, 0, "x", [], object()):
            if api("comparing with another type", lambda: n == other):
                raise Fail(f"a message compares equal to {other!r}")
        for f in fmts:
            if write(n, f) != write(o, f):
                raise Fail(f"{c['way']}: the copy is written differently as {f.upper()}")
        if c["way"] in ("copy", "replace"):
            return
        rng = random.Random(c["pick"])
        sites = [(x, k) for _, x in nodes(n) if hasattr(x, "__dict__") for k, v in vars(x).items() if v is not None and k not in ("id", "version")]
        x, k = rng.choice(sites)
        v = getattr(x, k)
        if isinstance(v, list):
            v.append(v[0] if v else "x")
        else:
            setattr(x, k, None)
        if flat(o) != before:
            raise Fail(f"{c['way']}: changing {k} of the copy changed the original")
        if n == o:
            raise Fail(f"{c['way']}: the copy with another {k} is equal to the original")

    def nontrivial(self, c):
        return schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        return ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"], "way:" + c["way"], "source:" + c["source"]]

    def shrink(self, c):
        if c["written"]:
            yield dict(c, written=False)
        if c["tree"]["_c"] != "Ndm":
            for t in shrinkers.trees(c["tree"]):
                if t is not None:
                    yield dict(c, tree=t)

    def show(self, c):
        return f"{c['way']} ({c['source']})\n" + render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C35
class C35(Prop):
    id, quick, thorough = "C35", 4000, 60000
    rule = "a message of at least 15 values with a document type declaration; a part of one to three values comes from an entity, or unused entities are declared"
    KINDS = ["internal", "internal", "nested", "character", "external", "external", "missing file", "folder", "url", "public", "dtd only", "parameter entity",
             "undeclared", "unused", "unused", "bomb", "recursive"]
    GOOD = ("internal", "nested", "character", "unused")

    def gen(self, rng, i):
        combined = rng.random() < 0.2
        t = gen.combined(rng) if combined else gen.sweep(rng, "xml", schema.ROOTS, i, max_list=2, rows=3)
        st = render_xml.style(rng)
        st["head"] = ""
        return {"tree": t, "style": st, "ndm": not combined and rng.random() < 0.3, "kind": self.KINDS[i % len(self.KINDS)], "sites": rng.choice([1, 1, 2, 3]),
                "seed": rng.randrange(10 ** 9)}

    def texts(self, c):
        """The plain text, and the one with entities (None when the message has no value to replace)."""
        rng = random.Random(c["seed"])
        t = c["tree"]
        plain = render(t, "xml", c["style"])
        decl = re.match(r"(<\?xml\s.*?\?>)?\s*", plain, re.S).group()
        body = plain[len(decl):]
        if c["ndm"]:
            body = re.sub(r'\sxmlns:xsi=("[^"]*"|\'[^\']*\')|\sxsi:\w+=("[^"]*"|\'[^\']*\')', "", body, count=2)
            body = "<ndm>" + body.rstrip() + "</ndm>\n"
        plain = decl + body
        hide = re.sub(r"<!\[CDATA\[.*?\]\]>|<!--.*?-->|<\?.*?\?>|&[^;]*;", lambda m: "\0" * len(m.group()), body, flags=re.S)
        spots = [m.span(1) for m in re.finditer(r">([^<>\0]*[^<>\s\0][^<>\0]*)<", hide)]
        attrs = [m.span(2) for m in re.finditer(r" (units|parameter)=[\"']([^\"'<>\0]+)[\"']", hide)]
        root = re.match(r"<(\w+)", body).group(1)
        use, name = [], "e"
        if c["kind"] not in ("unused",):
            pool = attrs if attrs and rng.random() < 0.25 else spots
            if not pool:
                return plain, None, []
            for k in range(c["sites"]):
                a, b = rng.choice(pool)
                if any(x < b and a < y for x, y, _ in use):
                    continue
                lead = len(body[a:b]) - len(body[a:b].lstrip())     # (attribute values and numbers have no white space to keep)
                a, b = a + lead, a + len(body[a:b].rstrip())
                x = rng.randrange(a, b)
                y = b if rng.random() < 0.5 else rng.randrange(x + 1, b + 1)
                if not body[x:y].strip():
                    x, y = a, b
                use.append((x, y, "e%d" % k))
        out, decls, where = body, [], []
        for x, y, n in sorted(use, reverse=True):
            v = body[x:y]
            where.append(v)
            q = '"' if '"' not in v else "'"
            out = out[:x] + "&%s;" % n + out[y:]
            safe = lambda x, q=q: x.replace("%", "&#37;").replace(q, "&#%d;" % ord(q))
            if c["kind"] == "internal":
                decls.append("<!ENTITY %s %s%s%s>" % (n, q, safe(v), q))
            elif c["kind"] == "nested":
                k = len(v) // 2
                parts = [safe(v[:k]), safe(v[k:])]
                decls += ["<!ENTITY %sa %s%s%s>" % (n, q, parts[0], q), "<!ENTITY %s %s&%sa;%s%s>" % (n, q, n, parts[1], q)]
            elif c["kind"] == "character":
                decls.append("<!ENTITY %s '%s'>" % (n, "".join("&#%d;" % ord(ch) for ch in v)))
            elif c["kind"] in ("external", "missing file", "folder", "url", "public"):
                ident = {"external": rng.choice(["SYSTEM 'secret.txt'", "SYSTEM 'file://%s/secret.txt'" % os.getcwd()]), "missing file": "SYSTEM 'nothing.txt'",
                         "folder": "SYSTEM '.'", "url": "SYSTEM 'http://127.0.0.1:9/secret.txt'", "public": "PUBLIC '-//X//Y' 'secret.txt'"}[c["kind"]]
                decls.append("<!ENTITY %s %s>" % (n, ident))
            elif c["kind"] == "bomb":
                decls.append("<!ENTITY b0 'aaaaaaaaaa'>" if not decls else "")
                decls += ["<!ENTITY b%d '%s'>" % (j, "&b%d;" % (j - 1) * 10) for j in range(1, 10)] if len(decls) == 1 else []
                decls.append("<!ENTITY %s '&b9;'>" % n)
            elif c["kind"] == "recursive":
                decls += ["<!ENTITY %s 'x&%sr;'>" % (n, n), "<!ENTITY %sr 'y&%s;'>" % (n, n)]
        extra = ["<!ENTITY u SYSTEM 'secret.txt'>", "<!ENTITY v 'unused'>", "<!ENTITY % p SYSTEM 'secret.txt'>", "<!-- <!ENTITY e0 'no'> -->", "<?pi x?>", "<!NOTATION n SYSTEM 'n'>",
                 "<!ELEMENT %s ANY>" % root, "<!ENTITY w '<COMMENT>unused</COMMENT>'>"]
        rng.shuffle(extra)
        decls += extra[:rng.choice([0, 0, 1, 3])] if c["kind"] != "unused" else extra[:rng.choice([1, 2, 8])]
        ext = ""
        if c["kind"] == "dtd only":
            ext = rng.choice([" SYSTEM 'ents.dtd'", " PUBLIC '-//X//Y' 'ents.dtd'", " SYSTEM 'nothing.dtd'"])
        elif c["kind"] == "parameter entity":
            decls += ["<!ENTITY % ents SYSTEM 'ents.dtd'>", "%ents;"]
        elif c["kind"] == "unused" and rng.random() < 0.4:
            ext = " SYSTEM 'ents.dtd'"
        rng.random() < 0.5 and decls.append(" ")
        sub = " [%s]" % rng.choice(["", "\n"]).join(decls) if "".join(decls).strip() else ""
        if c["kind"] == "undeclared" and not sub and rng.random() < 0.5:
            return plain, decl + out, where
        return plain, decl + "<!DOCTYPE %s%s%s>" % (root, ext, sub) + rng.choice(["", "\n"]) + out, where

    def check(self, c):
        plain, text, where = self.texts(c)
        if text is None:
            return
        with open("secret.txt", "w") as f:
            f.write("SeCrEt")
        with open("ents.dtd", "w") as f:
            f.write("".join("<!ENTITY e%d 'SeCrEt'>" % k for k in range(3)))
        a = read(plain)
        try:
            b = R().NdmIo().from_string(text)
        except Exception as e:
            if c["kind"] in self.GOOD:
                raise Fail(f"XML with a document type declaration ({c['kind']} entity) was refused: {type(e).__name__}: {str(e)[:200]}")
            return
        if c["kind"] in self.GOOD:
            if flat(a) != flat(b) or not a == b:
                x, y = flat(a), flat(b)
                raise Fail(f"XML with a document type declaration ({c['kind']} entity) was read differently: "
                           + str([(k, x.get(k), y.get(k)) for k in list(x) + list(y) if x.get(k) != y.get(k)][:3]))
        elif any("SeCrEt" in str(v) for v in flat(b).values()):
            raise Fail(f"the text of another file was read into a message ({c['kind']})")
        else:
            raise Fail(f"XML with an entity that cannot be expanded ({c['kind']}) was accepted, {where} left out")

    def nontrivial(self, c):
        return schema.count_leaves(c["tree"]) >= 15 and self.texts(c)[1] is not None

    def labels(self, c):
        return ["kind:" + c["kind"], "type:" + c["tree"]["_c"] + (" in ndm" if c["ndm"] else "")]

    def shrink(self, c):
        if c["sites"] > 1:
            yield dict(c, sites=1)
        if c["ndm"]:
            yield dict(c, ndm=False)
        if c["style"] != render_xml.PLAIN:
            yield dict(c, style=dict(render_xml.PLAIN))
        if c["tree"]["_c"] != "Ndm":
            for t in shrinkers.trees(c["tree"]):
                if t is not None:
                    for seed in range(4):
                        yield dict(c, tree=t, seed=seed)

    def show(self, c):
        return str(self.texts(c)[1])



# ---------------------------------------------------------------- C36
def build_as(tree, way, rng, used):
    """The object for the tree, built in another way and with the constants given by name."""
    models = R().models
    fs = [f for f in schema.CLASSES[tree["_c"]] if not (f.get("fixed") is not None and f["py"] in ("id", "version"))]

    def one(v, t):
        if t in schema.CLASSES:
            return build_as(dict(v, _c=t), way, rng, used)
        if t in schema.ENUMS:
            used.append((t, v))
            return getattr(models, t)[schema.NAMES[t][v]]
        return Decimal(v) if t == "Decimal" else int(v) if t == "int" else str(v)
    vals = {f["py"]: [one(x, f["type"]) for x in tree[f["py"]]] if f.get("list") else one(tree[f["py"]], f["type"]) for f in fs if tree.get(f["py"]) is not None}
    cls = getattr(models, tree["_c"])
    if way == "positional":
        last = max((k for k, f in enumerate(fs) if f["py"] in vals), default=-1)
        return cls(*[vals.get(f["py"], [] if f.get("list") else None) for f in fs[:last + 1]])
    if way == "keywords":
        return cls(**vals)
    o = cls()
    todo = list(vals)
    rng.shuffle(todo)
    for k in todo:
        if isinstance(vals[k], list) and rng.random() < 0.7:
            for x in vals[k]:
                getattr(o, k).append(x)
        else:
            setattr(o, k, vals[k])
    return o


def constants(tree, o, path=""):
    """(path, type, value, what the object has) for every enumerated value of the tree."""
    for f in schema.CLASSES[tree["_c"]]:
        v = tree.get(f["py"])
        if v is None:
            continue
        a = getattr(o, f["py"])
        for i, (x, y) in enumerate(zip(v, a) if f.get("list") else [(v, a)]):
            if f["type"] in schema.CLASSES:
                yield from constants(x, y, f"{path}/{f['py']}{i if f.get('list') else ''}")
            elif f["type"] in schema.ENUMS:
                yield f"{path}/{f['py']}", f["type"], x, y


class C36(Prop):
    id, quick, thorough = "C36", 5000, 60000
    rule = "a message of at least 15 values, one of them a named constant, built in one of the ways that Python offers"
    WAYS = ["keywords", "positional", "steps", "steps"]

    def gen(self, rng, i):
        fmt = rng.choice(FMTS)
        return {"fmt": fmt, "tree": gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=3, rows=4), "way": rng.choice(self.WAYS), "order": rng.randrange(10 ** 9)}

    def check(self, c):
        t, fmt = c["tree"], c["fmt"]
        models = R().models
        used = []
        o = api(f"building a message ({c['way']})", build_as, t, c["way"], random.Random(c["order"]), used)
        must_equal(t, o, f"the object built ({c['way']}, constants by name) holds something else")
        b = build(t)
        if not o == b:
            raise Fail(f"the objects built ({c['way']}) and built with keywords are not equal")
        for f in [fmt, "xml"]:
            s = write(o, f)
            must_say(t, s, f, f"{f.upper()} of the object built ({c['way']})")
            if s != write(b, f):
                raise Fail(f"the objects built ({c['way']}) and built with keywords are written differently as {f.upper()}")
        for what, x in (("read", read(render(t, fmt))), ("built", b)):
            for p, e, v, y in constants(t, x):
                n = schema.NAMES[e][v]
                if y is not getattr(getattr(models, e), n):
                    raise Fail(f"{p} of the object {what} from {v!r} is {y!r}, not {e}.{n}")

    def nontrivial(self, c):
        return schema.count_leaves(c["tree"]) >= 15 and any(f["type"] in schema.ENUMS and n.get(f["py"]) for _, k, n in schema.walk(c["tree"]) for f in schema.CLASSES[k])

    def labels(self, c):
        return ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"], "way:" + c["way"]]

    def shrink(self, c):
        for t in shrinkers.trees(c["tree"]):
            if t is not None:
                yield dict(c, tree=t)

    def show(self, c):
        return f"built: {c['way']}\n" + render(c["tree"], c["fmt"])


PROPS = [C27, C28, C29, C30, C31, C32, C33, C34, C35, C36]
