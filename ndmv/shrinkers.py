"""Structural shrinking of abstract trees (stays inside gen.valid)."""
import copy

from .gen import valid
from .schema import CLASSES, ENUMS


def _paths(t, path=()):
    for f in CLASSES[t["_c"]]:
        v = t.get(f["py"])
        if v is None:
            continue
        yield path + (f["py"],), f
        if f["type"] in CLASSES:
            if f.get("list"):
                for i, e in enumerate(v):
                    yield from _paths(e, path + (f["py"], i))
            else:
                yield from _paths(v, path + (f["py"],))


def _get(t, path):
    for p in path:
        t = t[p]
    return t


def simple(f):
    t = f["type"]
    if t in ENUMS:
        return None
    if t == "Decimal":
        return "-1" if f.get("hi") and float(f["hi"]) <= 0 else "1"
    if t == "int":
        return "1"
    if t == "str" and not f.get("pattern"):
        return "X"
    if t == "str" and f["pattern"].startswith(r"\d{1}"):
        return None
    return "2000-01-01T00:00:00"


def trees(tree, ok=valid):
    """Candidate smaller trees, big steps first."""
    def cand(edit, path):
        t = copy.deepcopy(tree)
        edit(_get(t, path[:-1]), path[-1])
        return t if ok(t) else None
    ps = sorted(_paths(tree), key=lambda p: len(p[0]))
    for path, f in ps:                              # drop whole lists / halves / blocks
        v = _get(tree, path)
        if f.get("fixed") is not None:
            continue
        if f.get("list"):
            edits = [lambda o, k: o.pop(k)] if len(v) else []
            if len(v) > 1:
                n = len(v)
                edits += [lambda o, k: o.__setitem__(k, o[k][:n // 2]), lambda o, k: o.__setitem__(k, o[k][n // 2:])]
                edits += [lambda o, k, i=i: o[k].pop(i) for i in range(min(n, 12))]
        elif not f.get("required") and f["kind"] != "text":
            edits = [lambda o, k: o.pop(k)]
        else:
            edits = []
        for e in edits:
            t = cand(e, path)
            if t is not None:
                yield t
    for path, f in ps:                              # simpler values
        if f.get("fixed") is not None or f["type"] in CLASSES:
            continue
        s = simple(f)
        v = _get(tree, path)
        if s is None:
            continue
        if f.get("list"):
            for i, x in enumerate(v):
                if x != s:
                    yield cand(lambda o, k: o[k].__setitem__(i, s), path)
        elif v != s:
            t = cand(lambda o, k: o.__setitem__(k, s), path)
            if t is not None:
                yield t


def case(c, plain=None, tree_key="tree", ok=valid):
    """Shrinks case[tree_key] and resets case["style"] towards `plain`."""
    st = c.get("style")
    if st and plain:
        if any(st[k] != plain[k] for k in st):
            yield dict(c, style=dict(plain))
            for k in st:
                if st[k] != plain.get(k):
                    yield dict(c, style=dict(st, **{k: plain[k]}))
    for t in trees(c[tree_key], ok):
        if t is not None:
            yield dict(c, **{tree_key: t})
