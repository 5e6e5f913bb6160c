"""What the properties share: reading, writing and comparing through the public API."""
import dataclasses
import enum
import json

from . import build as _build
from . import compare, gen, parse_kvn, parse_xml, render_kvn, render_xml, schema, shrinkers
from .engine import Fail, Prop, api

KEYVALUE = ["Opm", "Omm", "Apm", "Rdm"]         # messages without segments
SEGMENTED = ["Oem", "Aem", "Tdm"]


def R():
    from . import repo
    return repo


def F(name):
    return getattr(R().NDMFileFormats, name.upper())


def build(tree):
    return api("building the object tree", _build.build, tree)


def render(tree, fmt, style=None):
    return (render_kvn if fmt == "kvn" else render_xml).text(tree, style)


def read(text, what=None):
    return api(what or "reading a valid message", lambda: R().NdmIo().from_string(text))


def write(obj, fmt, **kw):
    s = api(f"writing {fmt.upper()}", lambda: R().NdmIo().to_string(obj, F(fmt), **kw))
    if not isinstance(s, str):
        raise Fail(f"writing {fmt.upper()} gave {type(s).__name__}, not a string")
    return s


def must_equal(tree, obj, what, kvn=False):
    d = compare.diff(tree, obj, ignore_version=False, kvn=kvn)
    if d:
        raise Fail(f"{what}: " + " | ".join(d[:4]))


def must_say(tree, text, fmt, what, attrs=None):
    """The written text says exactly what the tree says."""
    try:
        d = parse_kvn.diff(render_kvn.lines_of(tree), text) if fmt == "kvn" else parse_xml.diff(tree, text, attrs)
    except SyntaxError as e:                     # ElementTree.ParseError
        d = [f"not well-formed: {e}"]
    if d:
        raise Fail(f"{what}: " + " | ".join(d[:3]))


def nodes(o, path=""):
    """Every mutable node (dataclass instance or list) of a real object tree."""
    if dataclasses.is_dataclass(o):
        yield path, o
        for k, v in vars(o).items():
            yield from nodes(v, f"{path}/{k}")
    elif isinstance(o, (list, dict)):
        yield path, o
        for i, e in enumerate(o if isinstance(o, list) else o.values()):
            yield from nodes(e, f"{path}[{i}]")


def flat(o, path="", out=None):
    """Leaf values by path, knowing nothing about the classes."""
    out = {} if out is None else out
    if dataclasses.is_dataclass(o):
        out[path + "/_type"] = type(o).__name__
        for f in dataclasses.fields(o):
            flat(getattr(o, f.name), f"{path}/{f.name}", out)
    elif isinstance(o, (list, tuple)):
        for i, e in enumerate(o):
            flat(e, f"{path}[{i}]", out)
    elif isinstance(o, enum.Enum):
        out[path] = o.value
    elif o is not None:
        out[path] = o
    return out


def leaves_of(tree, path=()):
    """(path, field) of every scalar of an abstract tree."""
    for f in schema.CLASSES[tree["_c"]]:
        v = tree.get(f["py"])
        if v is None:
            continue
        if f["type"] in schema.CLASSES:
            if f.get("list"):
                for i, e in enumerate(v):
                    yield from leaves_of(e, path + (f["py"], i))
            else:
                yield from leaves_of(v, path + (f["py"],))
        elif f.get("list"):
            for i, _ in enumerate(v):
                yield path + (f["py"], i), f
        else:
            yield path + (f["py"],), f


def at(tree, path):
    for p in path:
        tree = tree[p] if not hasattr(tree, "__dict__") else getattr(tree, p)
    return tree


class TreeProp(Prop):
    """One message tree per case, in a random format style."""
    fmt = "kvn"
    roots = schema.ROOTS
    styled = 0.0
    knobs = {}
    blanks = 0.0

    def gen(self, rng, i):
        t = gen.sweep(rng, self.fmt, self.roots, i, **self.knobs)
        if self.blanks and rng.random() < self.blanks:
            gen.blanks(rng, t)
        m = render_kvn if self.fmt == "kvn" else render_xml
        return {"tree": t, "style": m.style(rng) if rng.random() < self.styled else dict(m.PLAIN)}

    def plain(self):
        return (render_kvn if self.fmt == "kvn" else render_xml).PLAIN

    def nontrivial(self, case):
        return schema.count_leaves(case["tree"]) >= 15

    def labels(self, case):
        return tree_labels(case["tree"])

    def shrink(self, case):
        yield from shrinkers.case(case, self.plain())

    def show(self, case):
        return render(case["tree"], self.fmt, case["style"])


def tree_labels(t):
    out = ["type:" + t["_c"]]
    b = t.get("body", {})
    if isinstance(b.get("segment"), list):
        n = len(b["segment"])
        out.append("segments:" + (str(n) if n < 3 else "3+"))
        for s in b["segment"]:
            d = s["data"]
            for k in d:
                if isinstance(d[k], list) and k != "comment":
                    out.append(f"has:{k}")
                    if len(d[k]) > 7:
                        out.append("rows:8+")
            for st in d.get("attitude_state", []):
                out.append("attitude:" + [k for k in st if k != "_c"][0])
            for st in d.get("observation", []):
                out.append("observation:" + [k for k in st if k not in ("_c", "epoch")][0])
    js = json.dumps(t)
    if '"comment"' in js:
        out.append("has:comment")
    if '"units"' in js:
        out.append("has:units")
    if '"user_defined"' in js:
        out.append("has:user_defined")
    return out


RULE_TREE = "the message has at least 15 values (fields, comments, data tokens)"
