"""Independent reader of written XML: element tree vs. what the abstract tree says."""
import xml.etree.ElementTree as ET
from decimal import Decimal

from .parse_kvn import same_value
from .schema import CLASSES, TAG

XSI = "{http://www.w3.org/2001/XMLSchema-instance}"


def diff(tree, text, attrs=None, tag=None, limit=4):
    """attrs: the xsi attributes (local name -> value) the root must carry."""
    root = ET.fromstring(text.encode("utf-8") if isinstance(text, str) else text)
    out = []
    got = {k[len(XSI):]: v for k, v in root.attrib.items() if k.startswith(XSI)}
    if got != (attrs or {}):
        out.append(f"/: schema attributes expected {attrs or {}}, got {got}")
    _node(tree, root, tag or TAG[tree["_c"]], "", out, limit, True)
    return out


def _num(t):
    return t in ("Decimal", "int")


def _node(t, el, tag, path, out, limit, top=False):
    if len(out) >= limit:
        return
    if el.tag != tag:
        out.append(f"{path}: expected <{tag}>, got <{el.tag}>")
        return
    p = path + "/" + tag
    fs = CLASSES[t["_c"]]
    want = {f["xml"]: t[f["py"]] for f in fs if f["kind"] == "attribute" and t.get(f["py"]) is not None}
    have = {k: v for k, v in el.attrib.items() if not (top and k.startswith(XSI))}
    if want != have:
        out.append(f"{p}: attributes expected {want}, got {have}")
    txt = [f for f in fs if f["kind"] == "text"]
    if txt:
        v = t.get(txt[0]["py"])
        if len(el) or not same_value(v if v is not None else "", el.text or "", _num(txt[0]["type"])):
            out.append(f"{p}: expected {v!r}, got {el.text!r} with {len(el)} children")
        return
    if (el.text or "").strip():
        out.append(f"{p}: unexpected text {el.text!r}")
    want = []
    for f in fs:
        v = t.get(f["py"])
        if f["kind"] == "element" and v is not None:
            want += [(f, e) for e in (v if f.get("list") else [v])]
    kids = list(el)
    if [f["xml"] for f, _ in want] != [k.tag for k in kids]:
        out.append(f"{p}: children expected {[f['xml'] for f, _ in want]}, got {[k.tag for k in kids]}"[:600])
        return
    for (f, e), k in zip(want, kids):
        if (k.tail or "").strip():
            out.append(f"{p}: unexpected text {k.tail!r}")
        if f["type"] in CLASSES:
            _node(e, k, f["xml"], p, out, limit)
        elif len(k) or k.attrib or not same_value(e, k.text or "", _num(f["type"])):
            out.append(f"{p}/{f['xml']}: expected {e!r}, got {k.text!r} {k.attrib}")
