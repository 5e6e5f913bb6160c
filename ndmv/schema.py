"""The frozen NDM structure (schema.json): what the generators and oracles know.

Nothing here imports the code under test.

Abstract message tree ("tree"): a JSON-able dict {"_c": class name, field: value}
  * element / attribute / text fields that are scalars hold their *lexical* form (str)
  * class-typed fields hold a tree, list fields hold a list; absent == not present
"""
import json
import os

_D = json.load(open(os.path.join(os.path.dirname(__file__), "schema.json")))
CLASSES = {c: v["fields"] for c, v in _D["classes"].items()}
TAG = {c: v["tag"] for c, v in _D["classes"].items()}
ENUMS = _D["enums"]
NAMES = {t: dict(zip(vs, _D["enum_names"][t])) for t, vs in ENUMS.items()}     # value -> name of the constant
ROOTS = ["Aem", "Apm", "Cdm", "Oem", "Omm", "Opm", "Rdm", "Tdm"]
FIELD = {c: {f["py"]: f for f in fs} for c, fs in CLASSES.items()}


def kvn_id(root):
    return FIELD[root]["id"]["fixed"]


def version(root):
    return FIELD[root]["version"]["fixed"]


def is_valued(c):
    """Leaf class: one text value plus attributes."""
    return c in CLASSES and any(f["kind"] == "text" for f in CLASSES[c])


def walk(tree, path=()):
    """Yields (path, class, tree) for every class-typed node, pre-order."""
    yield path, tree["_c"], tree
    for f in CLASSES[tree["_c"]]:
        v = tree.get(f["py"])
        if v is None or f["type"] not in CLASSES:
            continue
        if f.get("list"):
            for i, e in enumerate(v):
                yield from walk(e, path + (f["py"], i))
        else:
            yield from walk(v, path + (f["py"],))


def count_leaves(tree):
    n = 0
    for f in CLASSES[tree["_c"]]:
        v = tree.get(f["py"])
        if v is None:
            continue
        if f["type"] in CLASSES:
            n += sum(map(count_leaves, v)) if f.get("list") else count_leaves(v)
        else:
            n += len(v) if f.get("list") else 1
    return n
