"""Oracle: does a real object tree hold exactly what an abstract tree says?"""
import dataclasses
import enum
from decimal import Decimal

from .schema import CLASSES, ENUMS


def _leaf(exp, act, t, path, out):
    if t == "Decimal":
        if not isinstance(act, Decimal) or act != Decimal(exp):
            out.append(f"{path}: expected Decimal {exp!r}, got {act!r}")
    elif t == "int":
        if isinstance(act, bool) or not isinstance(act, int) or act != int(exp):
            out.append(f"{path}: expected int {exp!r}, got {act!r}")
    elif t in ENUMS:
        if not isinstance(act, enum.Enum) or act.value != exp or type(act).__name__ != t:
            out.append(f"{path}: expected {t}({exp!r}), got {act!r}")
    elif not isinstance(act, str) or isinstance(act, enum.Enum) or act != exp:
        out.append(f"{path}: expected {exp!r}, got {act!r}")


def diff(exp, act, path="", out=None, limit=6, ignore_version=False, kvn=False):
    """Differences between abstract tree `exp` and object `act` (empty list: equal).

    kvn=True compares comments by their position relative to the data: KVN does not say
    whether a COMMENT line belongs to a block or to the first block inside it."""
    top = out is None
    out = [] if out is None else out
    c = exp["_c"]
    if type(act).__name__ != c:
        out.append(f"{path or '/'}: expected {c}, got {type(act).__name__} {str(act)[:80]}")
        return out
    known = set()
    for f in CLASSES[c]:
        if len(out) >= limit:
            return out
        py = f["py"]
        known.add(py)
        e, a, p = exp.get(py), getattr(act, py, None), f"{path}/{py}"
        if ignore_version and py == "version" and not path:
            continue
        if f.get("list"):
            e = e or []
            if not isinstance(a, list):
                out.append(f"{p}: expected a list of {len(e)}, got {a!r}")
                continue
            if kvn and py == "comment":
                continue
            if len(a) != len(e):
                out.append(f"{p}: expected {len(e)} entries, got {len(a)}: {str(a)[:160]}")
                continue
            for i, (x, y) in enumerate(zip(e, a)):
                if f["type"] in CLASSES:
                    diff(x, y, f"{p}[{i}]", out, limit, kvn=kvn)
                else:
                    _leaf(x, y, f["type"], f"{p}[{i}]", out)
        elif f["kind"] == "text" and f["type"] == "str" and e in (None, "") and a in (None, ""):
            pass                                  # an empty element has no text
        elif e is None:
            if a is not None:
                out.append(f"{p}: expected nothing, got {str(a)[:120]}")
        elif a is None:
            out.append(f"{p}: expected {str(e)[:120]}, got nothing")
        elif f["type"] in CLASSES:
            diff(e, a, p, out, limit, kvn=kvn)
        else:
            _leaf(e, a, f["type"], p, out)
    for f in dataclasses.fields(act):
        if f.name not in known and getattr(act, f.name) not in (None, []):
            out.append(f"{path}: unexpected field {f.name}")
    if top and kvn and not out:
        e, a = [], []
        _comments(exp, "", e, [], lambda t, k: t.get(k))
        _comments(act, "", a, [], getattr, c)
        if e != a:
            i = next((i for i, (x, y) in enumerate(zip(e, a)) if x != y), min(len(e), len(a)))
            out.append(f"/comment: expected comments before data {e[i:i + 1]}, got {a[i:i + 1]} (#{i})")
    return out


def _comments(t, path, out, pending, get, c=None):
    """(comments, path of the first value after them) for every run of comments."""
    c = c or t["_c"]
    for f in CLASSES[c]:
        v = get(t, f["py"])
        if v is None or v == "" and f["kind"] == "text" and f["type"] == "str":
            continue
        if f["py"] == "comment":
            pending.extend(v)
        elif f["type"] in CLASSES:
            for i, e in enumerate(v) if f.get("list") else [("", v)]:
                _comments(e, f"{path}/{f['py']}{i}", out, pending, get, f["type"])
        elif pending:
            out.append((list(pending), f"{path}/{f['py']}"))
            pending.clear()
    if not path and pending:
        out.append((list(pending), "end"))
