"""Independent XML renderer: abstract tree -> XML text (unqualified CCSDS NDM/XML)."""
import random

from .schema import CLASSES, TAG

XSI = "http://www.w3.org/2001/XMLSchema-instance"
PLAIN = {"indent": 2, "cdata": False, "refs": False, "notes": False, "quote": '"', "decl": '<?xml version="1.0" encoding="UTF-8"?>\n',
         "schema": None, "eol": "\n", "pad": False, "attr_rev": False, "selfclose": True, "tail": "\n", "head": "", "mix": None}


def style(rng):
    return {"indent": rng.choice([0, 2, 4, None]), "cdata": rng.random() < 0.3, "refs": rng.random() < 0.3,
            "notes": rng.random() < 0.3, "quote": rng.choice("\"'"),
            "decl": rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>", "", '<?xml version="1.0"?>\n\n',
                                '<?xml version="1.0"\n      encoding="UTF-8"\n?>\n', "<?xml\tversion = '1.0' ?>"]),
            "schema": rng.choice([None, "noNamespaceSchemaLocation", "schemaLocation"]),
            "eol": rng.choice(["\n", "\n", "\r\n"]), "pad": rng.random() < 0.3, "attr_rev": rng.random() < 0.5,
            "selfclose": rng.random() < 0.5, "tail": rng.choice(["\n", "", " \n\n"]), "head": rng.choice(["", "", "\n  "]),
            "mix": rng.randrange(10 ** 9) if rng.random() < 0.3 else None}


def esc(s, st, attr=False):
    out = []
    for i, c in enumerate(s):
        if c == "&":
            out.append("&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">":
            out.append("&gt;")
        elif attr and c == st["quote"]:
            out.append("&quot;" if c == '"' else "&apos;")
        elif attr and c in "\n\t" or c == "\r":
            out.append("&#%d;" % ord(c))
        elif st["refs"] and i % 3 == 1 and c not in " ":
            out.append("&#%d;" % ord(c) if i % 2 else "&#x%X;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def text(tree, st=None, tag=None):
    st = dict(PLAIN, **(st or {}))
    rows = []
    if st["schema"]:
        extra = [("xmlns:xsi", XSI), ("xsi:" + st["schema"],
                  "http://sanaregistry.org/r/ndmxml/ndmxml-1.0-master.xsd" if st["schema"][0] == "n" else "urn:ccsds:schema:ndmxml http://x/y.xsd")]
    else:
        extra = []
    decl = "" if st["head"] else st["decl"]
    n = _node(tag or TAG[tree["_c"]], tree, st, 0, rows, extra, 0)
    nl = st["eol"] if st["indent"] is not None else ""
    body = nl.join(rows)
    return st["head"] + decl.replace("\n", st["eol"]) + body + st["tail"]


def _attrs(pairs, st):
    if st["attr_rev"]:
        pairs = pairs[::-1]
    q = st["quote"]
    return "".join(" %s=%s%s%s" % (k, q, esc(v, st, True), q) for k, v in pairs)


def _leaf(tag, v, attrs, st, ind, rows, numeric):
    if st["mix"] is not None:                                   # values of all styles in one file
        m = random.Random(f"{st['mix']}:{len(rows)}")
        st = dict(st, **{k: v for k, v in style(m).items() if k in ("cdata", "refs", "notes", "quote", "pad", "attr_rev", "selfclose")})
    if v == "" and st["selfclose"]:
        rows.append("%s<%s%s/>" % (ind, tag, _attrs(attrs, st)))
        return
    k = len(v) * 7 // 3 % (len(v) + 1)                          # notes may stand anywhere in a value
    note = ["<!-- note -->", "<?note a > b?>", "<!--x--><?x?>"][len(rows) % 3] if st["notes"] and len(v) % 3 != 1 and v else ""
    if st["cdata"] and v and "]]>" not in v and "\r" not in v and len(v) % 2:
        s = "<![CDATA[%s]]>" % v
        if note:
            s = "<![CDATA[%s]]>" % v[:k] + note + ("<![CDATA[%s]]>" % v[k:] if k % 2 and v[k:] else esc(v[k:], st))
    else:
        s = esc(v[:k], st) + note + esc(v[k:], st) if note else esc(v, st)
    if st["pad"] and numeric:
        s = " " + s + "\n  "
    rows.append("%s<%s%s>%s</%s>" % (ind, tag, _attrs(attrs, st), s, tag))


def _node(tag, t, st, depth, rows, extra, n):
    fs = CLASSES[t["_c"]]
    attrs = [(f["xml"], t[f["py"]]) for f in fs if f["kind"] == "attribute" and t.get(f["py"]) is not None] + extra
    ind = " " * ((st["indent"] or 0) * depth)
    txt = [f for f in fs if f["kind"] == "text"]
    if txt:
        v = t.get(txt[0]["py"])
        _leaf(tag, v if v is not None else "", attrs, st, ind, rows, txt[0]["type"] != "str")
        return n
    at = len(rows)
    rows.append("%s<%s%s>" % (ind, tag, _attrs(attrs, st)))
    for f in fs:
        if f["kind"] == "attribute":
            continue
        v = t.get(f["py"])
        if v is None:
            continue
        for e in v if f.get("list") else [v]:
            n += 1
            if st["notes"] and n % 7 == 3:
                rows.append("<!-- x < & y -->" if n % 2 else "<?pi data?>")
            if f["type"] in CLASSES:
                n = _node(f["xml"], e, st, depth + 1, rows, [], n)
            else:
                _leaf(f["xml"], e, [], st, " " * ((st["indent"] or 0) * (depth + 1)), rows, f["type"] in ("Decimal", "int"))
    if len(rows) == at + 1 and st["selfclose"]:
        rows[at] = rows[at][:-1] + "/>"
    else:
        rows.append("%s</%s>" % (ind, tag))
    return n
