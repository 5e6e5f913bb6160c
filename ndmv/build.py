"""Builds real objects from abstract trees through the public constructors."""
from decimal import Decimal

from .schema import CLASSES, ENUMS


def leaf(v, t, models):
    if t == "Decimal":
        return Decimal(v)
    if t == "int":
        return int(v)
    if t in ENUMS:
        return getattr(models, t)(v)
    return str(v)


def build(tree, models=None):
    if models is None:
        from .repo import models
    kw = {}
    for f in CLASSES[tree["_c"]]:
        v = tree.get(f["py"])
        if v is None or (f.get("fixed") is not None and f["py"] in ("id", "version")):
            continue
        one = (lambda x: build(x, models)) if f["type"] in CLASSES else (lambda x: leaf(x, f["type"], models))
        kw[f["py"]] = [one(x) for x in v] if f.get("list") else one(v)
    cls = getattr(models, tree["_c"])
    if CLASSES[tree["_c"]][0]["kind"] == "text" and "value" in kw:      # LengthType(Decimal(800), units=...)
        return cls(kw.pop("value"), **kw)
    return cls(**kw)
