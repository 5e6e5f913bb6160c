"""Independent KVN renderer: abstract tree -> the lines of a KVN file (CCSDS 502/503/504/508)."""
import random

from .schema import CLASSES, FIELD, is_valued


def lines_of(tree):
    """The logical lines: tuples
    ("kv", key, value, unit|None, "num"|"str"|"obs") ("comment", text) ("word", text) ("data", [tokens]) ("blank",)"""
    root = tree["_c"]
    out = [("kv", tree["id"], tree["version"], None, "str")]
    _walk(tree["header"], out)
    body = tree["body"]
    if root in ("Oem", "Aem", "Tdm"):
        for s in body["segment"]:
            out.append(("word", "META_START"))
            _walk(s["metadata"], out)
            out.append(("word", "META_STOP"))
            {"Oem": _oem, "Aem": _aem, "Tdm": _tdm}[root](s, out)
    else:
        _walk(body, out)
    return out


def _walk(t, out):
    for f in CLASSES[t["_c"]]:
        v = t.get(f["py"])
        if v is None:
            continue
        if f["py"] == "comment":
            out.extend(("comment", x) for x in v)
        elif f["py"] == "user_defined":
            out.extend(("kv", "USER_DEFINED_" + u["parameter"], u["value"], None, "str") for u in v)
        elif f["type"] in CLASSES:
            for e in (v if f.get("list") else [v]):
                if is_valued(e["_c"]):
                    key = e.get("angle") or e.get("rate") or f["xml"]
                    out.append(("kv", key, e["value"], e.get("units"), kind(FIELD[e["_c"]]["value"])))
                else:
                    _walk(e, out)
        else:
            out.append(("kv", f["xml"], v, None, kind(f)))


def kind(f):
    return "num" if f["type"] in ("Decimal", "int") else "str"


def val(x):
    return x["value"] if isinstance(x, dict) else x


def _oem(s, out):
    d = s["data"]
    out.extend(("comment", x) for x in d.get("comment", []))
    for sv in d["state_vector"]:
        out.append(("data", [val(sv[f["py"]]) for f in CLASSES["StateVectorAccType"] if f["py"] in sv]))
    if d.get("covariance_matrix"):
        out.append(("word", "COVARIANCE_START"))
        for m in d["covariance_matrix"]:
            out.extend(("comment", x) for x in m.get("comment", []))
            out.append(("kv", "EPOCH", m["epoch"], None, "str"))
            if "cov_ref_frame" in m:
                out.append(("kv", "COV_REF_FRAME", m["cov_ref_frame"], None, "str"))
            v = [val(m[f["py"]]) for f in CLASSES["OemCovarianceMatrixType"] if isinstance(m.get(f["py"]), dict)]
            i = 0
            for n in range(1, 7):
                out.append(("data", v[i:i + n]))
                i += n
        out.append(("word", "COVARIANCE_STOP"))


def _aem(s, out):
    md, d = s["metadata"], s["data"]
    out.append(("word", "DATA_START"))
    out.extend(("comment", x) for x in d.get("comment", []))
    last = md.get("quaternion_type", "").upper() == "LAST"
    for st in d["attitude_state"]:
        (a,) = [v for k, v in st.items() if k != "_c"]
        row = [a["epoch"]]
        for f in CLASSES[a["_c"]]:
            v = a.get(f["py"])
            if f["py"] == "epoch" or v is None:
                continue
            if v["_c"] in ("QuaternionType", "QuaternionRateType"):
                q = [val(v[g["py"]]) for g in CLASSES[v["_c"]]]     # QC Q1 Q2 Q3
                row += q[1:] + q[:1] if last else q
            elif is_valued(v["_c"]):
                row.append(val(v))
            else:
                row += [val(v["rotation%d" % i]) for i in (1, 2, 3)]
        out.append(("data", row))
    out.append(("word", "DATA_STOP"))


def _tdm(s, out):
    out.append(("word", "DATA_START"))
    d = s["data"]
    out.extend(("comment", x) for x in d.get("comment", []))
    for o in d["observation"]:
        for f in CLASSES["TrackingDataObservationType"][1:]:
            if f["py"] in o:
                out.append(("kv", f["xml"], o["epoch"] + " " + val(o[f["py"]]), None, "obs"))
    out.append(("word", "DATA_STOP"))


PLAIN = {"eq": " = ", "lead": "", "trail": "", "unit": " [%s]", "sep": " ", "comment": "COMMENT %s", "eol": "\n",
         "blank": 0, "final_eol": True, "head": "", "pad": 0, "mix": None}


def style(rng):
    """A random formatting of the same content."""
    return {"eq": rng.choice([" = ", "=", "  =   ", " =", "= ", "\t=\t"]), "lead": rng.choice(["", "", " ", "   ", "\t"]),
            "trail": rng.choice(["", "", " ", "    ", " \t"]), "unit": rng.choice([" [%s]", "[%s]", "    [%s]", " [%s ]", " [ %s]", "\t[%s]"]),
            "sep": rng.choice([" ", "  ", "     ", "\t", " \t "]), "comment": rng.choice(["COMMENT %s", "COMMENT   %s", "COMMENT = %s", "COMMENT  =  %s"]),
            "eol": rng.choice(["\n", "\n", "\r\n"]), "blank": rng.choice([0, 0, 3, 1]), "final_eol": rng.random() < 0.7,
            "head": rng.choice(["", "", "\n", " \n\n"]), "pad": rng.choice([0, 0, 20, 28]),
            "mix": rng.randrange(10 ** 9) if rng.random() < 0.3 else None}


def text(tree_or_lines, st=None):
    st = dict(PLAIN, **(st or {}))
    ls = lines_of(tree_or_lines) if isinstance(tree_or_lines, dict) else tree_or_lines
    rows, base, mix = [], st, random.Random(st["mix"])
    for i, l in enumerate(ls):
        if base["mix"] is not None and mix.random() < 0.7:      # lines of all styles in one file
            st = dict(style(mix), final_eol=base["final_eol"], head=base["head"])
        if st["blank"] and i % st["blank"] == 0:
            rows.extend([("" if i % 2 else "   ") + st["eol"]] * mix.choice([1, 1, 1, 2, 5]))
        if l[0] == "kv":
            s = l[1].ljust(st["pad"]) + st["eq"] + (l[2].replace(" ", st["sep"]) if l[4] == "obs" else l[2])
            if l[3] is not None:
                s += st["unit"] % l[3]
        elif l[0] == "comment":
            s = st["comment"] % l[1]
        elif l[0] == "word":
            s = l[1]
        else:
            s = st["sep"].join(l[1])
        rows.append(st["lead"] + s + st["trail"] + st["eol"])
    if rows and not st["final_eol"]:
        rows[-1] = rows[-1][:-len(st["eol"])]
    return st["head"] + "".join(rows)
