"""Development tool (not run by any check): writes schema.json, the frozen description of
the NDM message structure that the generators and oracles use instead of the
classes in /repo.  The result was then reviewed by hand against the CCSDS
blue books / NDM-XML 2.0 schemas (see DESIGN.md); it is data, not code under test."""
import dataclasses, enum, json, sys, typing
from decimal import Decimal
import ccsds_ndm.models.ndmxml2 as m
classes, enums, names = {}, {}, {}
def walk(c):
    if c.__name__ in classes or c.__name__ in enums: return
    if issubclass(c, enum.Enum):
        enums[c.__name__] = [e.value for e in c]; names[c.__name__] = [e.name for e in c]; return
    hints = typing.get_type_hints(c); fields = []
    classes[c.__name__] = {"tag": c.Meta.name, "fields": fields}
    for f in dataclasses.fields(c):
        h = hints[f.name]; args = typing.get_args(h); b = args[0] if args else h
        md = f.metadata
        fields.append({k: v for k, v in {
            "py": f.name, "xml": md.get("name", f.name),
            "kind": {"Element": "element", "Attribute": "attribute"}.get(md.get("type"), "text"),
            "type": b.__name__, "list": typing.get_origin(h) is list,
            "required": bool(md.get("required") or md.get("min_occurs")),
            "sequential": bool(md.get("sequential")),
            "fixed": f.default if not f.init else None,
            "lo": next((str(md[k]) for k in ("min_inclusive","min_exclusive") if k in md), None),
            "lo_excl": "min_exclusive" in md,
            "hi": next((str(md[k]) for k in ("max_inclusive","max_exclusive") if k in md), None),
            "hi_excl": "max_exclusive" in md and "max_inclusive" not in md,
            "pattern": md.get("pattern")}.items() if v not in (None, False)})
        if dataclasses.is_dataclass(b) or issubclass(b, enum.Enum): walk(b)
for n in "Aem Apm Cdm Oem Omm Opm Rdm Tdm Ndm".split(): walk(getattr(m, n))
json.dump({"classes": classes, "enums": enums, "enum_names": names}, open(sys.argv[1], "w"), indent=1)
