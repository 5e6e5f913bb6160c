"""Random abstract message trees, built from the frozen schema (never from /repo)."""
import copy
import datetime
from decimal import Decimal

from .schema import CLASSES, ENUMS, ROOTS, is_valued, version

WORDS = ["EARTH", "MARS", "TEME", "EME2000", "ITRF-97", "SC_BODY_1", "SGP4", "JPL", "GSOC",
         "1998-067A", "NUSAT-8 (MARIE)", "EGM-96: 36D 36O", "MOON,SUN", "N/A", "'DSS-26'",
         "a=b", "x = y", "JOHN.DOE@SOMEWHERE>NET", "+49615130312", "ROSETTA", "0", "12345",
         "X", "EPOCH", "NONE", "$ITIM = 2004 JAN 14 22:26:18.40", "100%", "A&B <C>", "\"Q\"",
         "META", "DATA", "50/50", "#1", "1.5E-7", "-", "HERMITE", "km", "T0;T1",
         "META_START", "META_STOP", "DATA_STOP", "COVARIANCE_START", "OBJECT = OBJECT2", "COMMENT",
         "2007-075T16:50:01", "2010", "2005-184 rev", "1 2 3 4 5 6", "USER_DEFINED_X = 1", "<a/>",
         "&amp;", "]]>", "Type", "quaternionType", "None", "True", "nan", "1E400", "\\n", "%s", "{}", "COMMENTARY", "A <!-- B --> C", "<?pi x?>", "<![CDATA[x", "-- >", "&#65;", "%20", "\\t", "${HOME}", "<!DOCTYPE x>", "--&lt;"]
BRACKETED = ["COSMOS 2251 [DEB]", "[X]", "A [1] B", "A [B] [km]", "x]", "[y", "5 [km]", "P[0]"]
ASCII = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-+.,:;/()'\"<>&%$#@!?*=^~|{}`\\"
XML_EXTRA = "äéß£Ωж中…— 𝛼"


class Profile:
    """Knobs of one generated message; drawn per case so that the corners (everything
    present, only what is mandatory) are as common as the middle."""

    def __init__(self, rng, fmt):
        self.fmt = fmt                                    # "kvn" or "xml"
        self.p_opt = rng.choice([0.0, 0.15, 0.5, 0.5, 0.85, 1.0])
        self.p_units = rng.choice([0.0, 0.5, 1.0, 1.0])
        self.p_comment = rng.choice([0.0, 0.3, 0.7])
        self.max_list = rng.choice([1, 2, 2, 3, 3, 5])
        self.rows = rng.choice([1, 3, 3, 8, 8, 8, 8, 15]) if rng.random() < 0.97 else 60   # data lines
        self.data_units = fmt != "kvn"                    # units inside OEM/AEM/TDM data
        self.case = rng.choice(["any", "any", "upper"])
        self.p_same = rng.choice([0.0, 0.0, 0.1, 0.4])    # items of a list that repeat the one before
        self.cycle = None                                 # systematic enumeration of enum values


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def decimal_lex(rng, lo=None, hi=None, lo_excl=False, hi_excl=False):
    for _ in range(50):
        k = rng.randrange(9)
        if rng.random() < 0.02:
            s = rng.choice(["", "-", "+"]) + digits(rng, rng.randrange(1, 30)) + "." + digits(rng, rng.randrange(15, 45)) + rng.choice(["", "", "E+100", "e-120", "E5", "E400", "e-400"])
        elif k == 0:
            s = rng.choice(["0", "0.0", "1", "-1", "0.000", "-0.5", "10", "00.5"])
        elif k == 1:
            s = str(rng.randrange(-200, 400))
        elif k == 2:
            s = rng.choice(["", "-", "+"]) + digits(rng, 1) + "." + digits(rng, rng.randrange(1, 17)) + \
                rng.choice("Ee") + rng.choice(["-", "+", ""]) + "%02d" % rng.randrange(0, 25)
        elif k == 3:
            s = rng.choice(["", "-"]) + "." + digits(rng, rng.randrange(1, 10))
        elif k == 4:
            s = rng.choice(["", "-"]) + str(rng.randrange(0, 10 ** 12)) + "." + digits(rng, rng.randrange(1, 20))
        elif k == 5:
            s = str(rng.randrange(0, 360)) + "." + digits(rng, 6)
        elif k == 6:
            s = str(rng.randrange(1, 9)) + rng.choice(["E", "e", "E+", "e-"]) + str(rng.randrange(1, 12))
        elif k == 7:
            s = rng.choice(["", "-", "+"]) + str(rng.randrange(0, 90)) + "." + digits(rng, 3) + "000"
        else:
            s = rng.choice(["", "-"]) + str(rng.randrange(0, 100)) + "." + rng.choice(["", "5"])
        d = Decimal(s)
        if lo is not None and (d < Decimal(lo) or (lo_excl and d == Decimal(lo))):
            s = s.lstrip("-+")
            d = Decimal(s)
            if d < Decimal(lo) or (lo_excl and d == Decimal(lo)):
                continue
        if hi is not None and (d > Decimal(hi) or (hi_excl and d == Decimal(hi))):
            if Decimal(hi) <= 0 and d > 0:
                s = "-" + s.lstrip("+")
            elif "E" not in s.upper():
                whole, _, frac = s.partition(".")
                s = whole[:-3] + str(rng.randrange(0, int(max(1, min(999, Decimal(hi)))))) + ("." + frac if frac else "")
                s = s if len(s) < 9 else s[-9:].lstrip("-+")
            try:
                d = Decimal(s)
            except Exception:
                continue
            if d > Decimal(hi) or (hi_excl and d == Decimal(hi)) or (lo is not None and d < Decimal(lo)):
                continue
        return s
    if hi is not None and Decimal(hi) <= 0:
        return "-1.5"
    return "1.5"


def int_lex(rng, lo=None, hi=None):
    v = rng.choice([0, 1, 5, 7, 12, 999, 45018, rng.randrange(0, 10 ** 9)])
    if lo is None and rng.random() < 0.1:
        v = -v
    if hi is not None:
        v = min(v, int(hi))
    if lo is not None:
        v = max(v, int(lo))
    return str(v)


def epoch_lex(rng, row=False):
    """An epoch; `row` where KVN tells a data line by its four-digit year."""
    if rng.random() < 0.12:
        s = rng.choice(["2016-12-31T23:59:60", "2016-366T23:59:60.5Z", "2000-02-29T00:00:00.", "2000-001T00:00:00+05:30", "1999-12-31T23:59:59.999999999999999-01:00",
                        "2000-01-01T24:00:00", "2000-01-01T00:00:00.000000000000000000000000000001", "0001-01-01T00:00:00", "9999-365T23:59:59.9Z"])
        if not row and rng.random() < 0.5:
            s = rng.choice(["12000-01-01T00:00:00", "-0044-03-15T12:00:00", "-4712-001T12:00:00Z", "0", "100", "+100.5", "-3600.000", "86400.", ".5", "000123"])
        return s
    d = datetime.datetime(rng.randrange(1957, 2100), 1, 1) + datetime.timedelta(seconds=rng.randrange(0, 365 * 86400))
    base = d.strftime("%Y-%m-%dT%H:%M:%S") if rng.random() < 0.7 else d.strftime("%Y-%jT%H:%M:%S")
    if rng.random() < 0.7:
        base += "." + digits(rng, rng.choice([1, 3, 6, 8, 12]))
    if rng.random() < 0.2:
        base += "Z"
    return base


def text_lex(rng, prof):
    k = rng.random()
    if k < 0.55:
        s = rng.choice(WORDS)
    elif k < 0.63:
        s = rng.choice(BRACKETED)
    else:
        alpha = ASCII + (XML_EXTRA if prof.fmt == "xml" or k > 0.9 else "") + "[]     "
        s = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 5, 12, 40] if rng.random() < 0.97 else [80, 130, 200, 254, 260, 300, 1100, 4200])))
    if rng.random() < 0.1:
        s = s + "  " + rng.choice(WORDS)
    return s.strip(" ") or "X"


def comment_lex(rng, prof):
    if rng.random() < 0.04:
        return ""
    s = text_lex(rng, prof)
    while s.startswith("="):
        s = s[1:].strip(" ")
    return s or "NOTE"


def comments(rng, prof):
    return [comment_lex(rng, prof) for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]


def leaf(rng, prof, f):
    t = f["type"]
    if t in ENUMS:
        vals = ENUMS[t]
        if prof.cycle is not None:
            return vals[(prof.cycle + len(f.get("py", ""))) % len(vals)]
        if prof.case == "upper":
            vals = [v for v in vals if v == v.upper()] or vals
        return rng.choice(vals)
    if t == "Decimal":
        return decimal_lex(rng, f.get("lo"), f.get("hi"), f.get("lo_excl"), f.get("hi_excl"))
    if t == "int":
        return int_lex(rng, f.get("lo"), f.get("hi"))
    assert t == "str", t
    if f.get("pattern"):
        if f["pattern"].startswith(r"\d{1}"):
            return ",".join(rng.choice("12345") for _ in range(rng.randrange(2, 6)))
        return epoch_lex(rng, prof.fmt == "kvn" and f.get("py") == "epoch")
    return text_lex(rng, prof)


PARAMS = ["EARTH_MODEL", "A", "X1", "OBJECT", "EPOCH", "P_2_Q", "CONSOLE-EPOCH", "USER", "USER_DEFINED_X", "COMMENT"]


def params(rng, prof):
    n = rng.randrange(1, 1 + min(len(PARAMS), prof.max_list))
    out = rng.sample(PARAMS, n)
    for i in range(n):
        if rng.random() < 0.3:
            m = rng.choice([1, 2, 4, 8, 13, 19, 20, 21, 27, 28, 29, 33, 50, 70, 100, 260])
            p = "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__-./" + ("abcxyz:é[]#" if prof.fmt == "xml" else "")) for _ in range(m))
            out[i] = p if p not in out else out[i]
    return out


ROWS = ("state_vector", "attitude_state", "observation")


def node(rng, prof, c, ctx=None):
    """A random valid tree of class `c`."""
    out = {"_c": c}
    if c == "UserDefinedType":
        if rng.random() < prof.p_comment:
            out["comment"] = comments(rng, prof)
        out["user_defined"] = [
            {"_c": "UserDefinedParameterType", "value": text_lex(rng, prof), "parameter": p}
            for p in params(rng, prof)]
        return out
    if c == "AttitudeStateType":
        return attitude_state(rng, prof, ctx or {})
    if c == "TrackingDataObservationType":
        return observation(rng, prof)
    if c in ("AemMetadata",):
        return aem_metadata(rng, prof)
    if c in ("AemSegment",):
        md = aem_metadata(rng, prof)
        return {"_c": c, "metadata": md, "data": node(rng, prof, "AemData", md)}
    units_here = prof.p_units
    for f in CLASSES[c]:
        if f.get("fixed") is not None:
            out[f["py"]] = f["fixed"]
            continue
        if f["py"] == "comment":
            if rng.random() < prof.p_comment:
                out["comment"] = comments(rng, prof)
            continue
        if f["py"] == "units":
            if f.get("required") or (rng.random() < units_here and not (ctx or {}).get("nounits")):
                out["units"] = leaf(rng, prof, f)
            continue
        req = f.get("required")
        if f.get("list"):
            lo = 1 if req else 0
            top = prof.rows if f["py"] in ROWS else prof.max_list
            n = rng.randrange(lo, top + 1) if (req or rng.random() < prof.p_opt) else 0
            if c == "CdmBody":
                n = 2
            sub = ctx
            out[f["py"]] = rows = []
            for _ in range(n):
                rows.append(copy.deepcopy(rows[-1]) if rows and rng.random() < prof.p_same else node(rng, prof, f["type"], sub))
            continue
        if not req and f["kind"] != "text" and rng.random() >= prof.p_opt:
            continue
        if f["type"] in CLASSES:
            out[f["py"]] = node(rng, prof, f["type"], ctx)
        else:
            out[f["py"]] = leaf(rng, prof, f)
    fix(rng, prof, c, out)
    return out


def fix(rng, prof, c, out):
    """Constraints of the standards that the schema's field list does not carry."""
    if c in ("OemSegment",):
        if not prof.data_units:
            strip_units(out["data"])
    if c == "StateVectorAccType":
        acc = [k for k in ("x_ddot", "y_ddot", "z_ddot") if k in out]
        if acc and len(acc) < 3:
            for k in acc:
                del out[k]
    if c == "CdmBody":
        for i, s in enumerate(out["segment"]):
            s["metadata"]["object"] = rng.choice([["OBJECT1", "OBJECT2"]] * 3 + [["object1", "object2"]])[i]
    if c == "KeplerianElementsType":
        # exactly one of the two anomalies
        if ("true_anomaly" in out) == ("mean_anomaly" in out):
            k = rng.choice(["true_anomaly", "mean_anomaly"])
            o = {"true_anomaly": "mean_anomaly", "mean_anomaly": "true_anomaly"}[k]
            out[k] = out.get(k) or out.get(o) or node(rng, prof, "AngleType")
            out.pop(o, None)
    if c == "MeanElementsType":
        if ("semi_major_axis" in out) == ("mean_motion" in out):
            k = rng.choice(["semi_major_axis", "mean_motion"])
            out.pop("semi_major_axis", None), out.pop("mean_motion", None)
            out[k] = node(rng, prof, {"semi_major_axis": "DistanceType", "mean_motion": "RevType"}[k])
        reorder(c, out)
    if c == "ApmData":
        if "euler_elements_three" in out and "euler_elements_spin" in out:
            pass
    if c == "EulerElementsThreeType":
        euler_three(rng, prof, out)
    if c in CLASSES:
        reorder(c, out)


def prune(tree):
    """KVN has no way to say that an optional block without any value is there."""
    for f in CLASSES[tree["_c"]]:
        v = tree.get(f["py"])
        if f["type"] in CLASSES and v is not None:
            for e in v if f.get("list") else [v]:
                prune(e)
            if not f.get("list") and not f.get("required") and not has_value(v):
                del tree[f["py"]]


def has_value(tree):
    for k, v in tree.items():
        if k in ("_c", "comment"):
            continue
        if isinstance(v, list):
            if any(not isinstance(e, dict) or has_value(e) for e in v):
                return True
        elif not isinstance(v, dict) or has_value(v):
            return True
    return False


def reorder(c, out):
    order = {f["py"]: i for i, f in enumerate(CLASSES[c])}
    items = sorted(((k, v) for k, v in out.items() if k != "_c"), key=lambda kv: order[kv[0]])
    for k, _ in items:
        del out[k]
    out.update(items)


def strip_units(tree):
    for k, v in list(tree.items()):
        if k == "units":
            del tree[k]
        elif isinstance(v, dict):
            strip_units(v)
        elif isinstance(v, list):
            for e in v:
                if isinstance(e, dict):
                    strip_units(e)


AX = {"1": "X", "2": "Y", "3": "Z"}


def rot(rng, prof, c, seq, units=True):
    comp = {"RotationAngleType": ("RotationAngleComponentType", "angle", "_ANGLE", "deg"),
            "RotationRateType": ("RotationRateComponentType", "rate", "_RATE", "deg/s")}[c]
    out = {"_c": c}
    u = units and rng.random() < prof.p_units
    for i, a in enumerate(seq):
        e = {"_c": comp[0], "value": decimal_lex(rng), comp[1]: AX[a] + comp[2]}
        if comp[1] == "angle":
            e["value"] = decimal_lex(rng, "-180", "360", False, True)
        if u:
            e["units"] = comp[3]
        out["rotation%d" % (i + 1)] = e
    return out


def euler_three(rng, prof, out):
    seq = rng.choice(ENUMS["RotseqType"])
    out["euler_rot_seq"] = seq
    out.pop("rotation_angles", None), out.pop("rotation_rates", None)
    k = rng.randrange(3)
    if k in (0, 2):
        out["rotation_angles"] = rot(rng, prof, "RotationAngleType", seq)
    if k in (1, 2):
        out["rotation_rates"] = rot(rng, prof, "RotationRateType", seq)


def aem_metadata(rng, prof):
    out = {"_c": "AemMetadata"}
    for f in CLASSES["AemMetadata"]:
        if f["py"] == "comment":
            if rng.random() < prof.p_comment:
                out["comment"] = comments(rng, prof)
        elif f.get("required") or rng.random() < prof.p_opt:
            out[f["py"]] = leaf(rng, prof, f)
    t = out["attitude_type"].upper()
    for k in ("quaternion_type", "euler_rot_seq"):
        out.pop(k, None)
    if t.startswith("QUATERNION"):
        out["quaternion_type"] = leaf(rng, prof, {"type": "QuaternionTypeType"})
    if t.startswith("EULER") or t.endswith("RATE"):
        out["euler_rot_seq"] = leaf(rng, prof, {"type": "RotseqType"})
    reorder("AemMetadata", out)
    return out


ATT = {"QUATERNION": ("quaternion_state", "QuaternionEphemerisType"),
       "QUATERNION/DERIVATIVE": ("quaternion_derivative", "QuaternionDerivativeType"),
       "QUATERNION/RATE": ("quaternion_euler_rate", "QuaternionEulerRateType"),
       "EULER_ANGLE": ("euler_angle", "EulerAngleType"),
       "EULER_ANGLE/RATE": ("euler_angle_rate", "EulerAngleRateType"),
       "SPIN": ("spin", "SpinType"),
       "SPIN/NUTATION": ("spin_nutation", "SpinNutationType")}


def attitude_state(rng, prof, md):
    py, c = ATT[md.get("attitude_type", "QUATERNION").upper()]
    units = prof.data_units
    seq = md.get("euler_rot_seq", "123")
    s = {"_c": c, "epoch": epoch_lex(rng, prof.fmt == "kvn")}
    ctx = None if units else {"nounits": True}
    for f in CLASSES[c]:
        if f["py"] == "epoch":
            continue
        if f["type"].startswith("Rotation"):
            s[f["py"]] = rot(rng, prof, f["type"], seq, units)
        else:
            s[f["py"]] = node(rng, prof, f["type"], ctx)
    return {"_c": "AttitudeStateType", py: s}


def observation(rng, prof):
    f = rng.choice(CLASSES["TrackingDataObservationType"][1:])
    v = node(rng, prof, f["type"], None if prof.data_units else {"nounits": True}) \
        if f["type"] in CLASSES else leaf(rng, prof, f)
    return {"_c": "TrackingDataObservationType", "epoch": epoch_lex(rng, prof.fmt == "kvn"), f["py"]: v}


TRAPS = {"Aem": ["QUATERNION_TYPE = LAST", "QUATERNION_TYPE", "x QUATERNION_TYPE = FIRST", "ATTITUDE_TYPE = SPIN", "EULER_ROT_SEQ = 321", "META_START", "DATA_START"],
         "Oem": ["COVARIANCE_START", "EPOCH = 2000-01-01T00:00:00", "COV_REF_FRAME = RTN", "2000-01-01T00:00:00 1 2 3 4 5 6", "META_START", "1.0"],
         "Tdm": ["RANGE = 2000-01-01T00:00:00 1.5", "ANGLE_1", "META_START", "DATA_START", "2000-01-01T00:00:00 1.5", "PARTICIPANT_1 = X"],
         "Cdm": ["OBJECT = OBJECT2", "OBJECT", "OBJECT2", "X = 1 [km]", "COMMENT OBJECT = OBJECT1"]}


def trap(rng, t):
    """A comment or text that looks like a keyword which matters elsewhere in the message."""
    spots, todo = [], [t]
    while todo:
        n = todo.pop()
        for k, v in n.items():
            if k == "comment" and v:
                spots += [(v, j) for j in range(len(v))]
            todo += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict)]
    for _ in range(rng.choice([1, 2])):
        if spots:
            v, j = rng.choice(spots)
            v[j] = rng.choice(TRAPS[t["_c"]])


def message(rng, fmt, root=None, prof=None, **knobs):
    root = root or rng.choice(ROOTS)
    prof = prof or Profile(rng, fmt)
    for k, v in knobs.items():
        setattr(prof, k, v)
    t = node(rng, prof, root)
    if root in TRAPS and rng.random() < 0.12:
        trap(rng, t)
    if fmt == "kvn":
        prune(t)
    return t


def sweep(rng, fmt, roots, i, **knobs):
    """The i-th message: the first ones enumerate every optional value and every
    enumerated value of the schema, the rest are random."""
    roots = list(roots)
    n = 20 * len(roots)
    if i < n:
        return message(rng, fmt, roots[i % len(roots)], **dict(dict(p_opt=1.0, p_units=1.0, case="any",
                       cycle=i // len(roots), max_list=2, rows=3), **knobs))
    return message(rng, fmt, rng.choice(roots), **knobs)


BLANKS = [" ", "  ", "\n", " \n ", "\t", "\n\n    ", " \t", "\r", "\r\n", "\u00a0", "\u2028", "\u0085", "\n<!-- ", " ]]> "]


def blanks(rng, t):
    """Puts white space into and around some of the texts (XML keeps it)."""
    todo = [t]
    while todo:
        n = todo.pop()
        for f in CLASSES[n["_c"]]:
            v = n.get(f["py"])
            if v is None:
                continue
            if f["type"] in CLASSES:
                todo += v if f.get("list") else [v]
            elif f["type"] == "str" and f["kind"] != "attribute" and not f.get("pattern") and f.get("fixed") is None:
                new = []
                for x in v if f.get("list") else [v]:
                    if rng.random() < 0.4 and isinstance(x, str) and x:
                        for _ in range(rng.choice([1, 1, 2])):
                            j = rng.choice([0, len(x), rng.randrange(len(x) + 1)])
                            x = x[:j] + rng.choice(BLANKS) + x[j:]
                    new.append(x)
                n[f["py"]] = new if f.get("list") else new[0]


def combined(rng, **knobs):
    """A Combined NDM tree (class Ndm)."""
    prof = Profile(rng, "xml")
    prof.rows, prof.max_list = min(prof.rows, 3), min(prof.max_list, 2)
    for k, v in knobs.items():
        setattr(prof, k, v)
    t = {"_c": "Ndm"}
    if rng.random() < 0.5:
        t["message_id"] = text_lex(rng, prof)
    if rng.random() < prof.p_comment:
        t["comment"] = comments(rng, prof)
    n = rng.choice([1, 1, 2, 2, 3, 4])
    same = rng.random() < 0.3
    r0 = rng.choice(ROOTS)
    for _ in range(n):
        r = r0 if same else rng.choice(ROOTS)
        t.setdefault(r.lower(), []).append(node(rng, prof, r))
    reorder("Ndm", t)
    return t


def without_units(tree):
    """What is left of the data units of OEM, AEM and TDM data lines in KVN: nothing."""
    import copy
    t = copy.deepcopy(tree)
    if t["_c"] in ("Oem", "Aem", "Tdm"):
        strip_units(t["body"])
    return t


def valid(tree, c=None):
    """Keeps shrinking inside the domain: required values there, conditional ones consistent."""
    c = c or tree["_c"]
    for f in CLASSES[c]:
        v = tree.get(f["py"])
        if v is None or v == []:
            if f.get("required"):
                return False
            continue
        if f["type"] in CLASSES:
            for e in v if f.get("list") else [v]:
                if not valid(e):
                    return False
            if not f.get("list") and not f.get("required") and not has_value(v):
                return False
    if c == "CdmBody":
        return [s["metadata"]["object"].upper() for s in tree["segment"]] == ["OBJECT1", "OBJECT2"]
    if c in ("UserDefinedType",):
        return bool(tree.get("user_defined"))
    if c == "StateVectorAccType":
        return len([k for k in ("x_ddot", "y_ddot", "z_ddot") if k in tree]) in (0, 3)
    if c == "KeplerianElementsType":
        return ("true_anomaly" in tree) != ("mean_anomaly" in tree)
    if c == "MeanElementsType":
        return ("semi_major_axis" in tree) != ("mean_motion" in tree)
    if c == "TrackingDataObservationType":
        return len(tree) == 3
    if c == "EulerElementsThreeType":
        seq = tree.get("euler_rot_seq")
        rots = [tree[k] for k in ("rotation_angles", "rotation_rates") if k in tree]
        return bool(seq and rots) and all(rot_ok(r, seq) for r in rots)
    if c == "AemSegment":
        md = tree["metadata"]
        t = md["attitude_type"].upper()
        if t.startswith("QUATERNION") != ("quaternion_type" in md):
            return False
        seq = md.get("euler_rot_seq")
        if (t.startswith("EULER") or t.endswith("RATE")) != bool(seq):
            return False
        for st in tree["data"]["attitude_state"]:
            if len(st) != 2:
                return False
            ((py, a),) = [(k, v) for k, v in st.items() if k != "_c"]
            if py != ATT[t][0] or any(f["py"] not in a for f in CLASSES[a["_c"]]) or not all(rot_ok(v, seq) for v in a.values() if isinstance(v, dict) and v["_c"].startswith("Rotation")):
                return False
    return True


def rot_ok(r, seq):
    return all((r["rotation%d" % (i + 1)].get("angle") or r["rotation%d" % (i + 1)].get("rate"))[0] == AX[a] for i, a in enumerate(seq))
