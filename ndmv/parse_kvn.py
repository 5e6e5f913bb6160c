"""Independent KVN tokeniser and the comparison of written KVN with what it must say."""
import re
from decimal import Decimal, InvalidOperation

WORDS = {"META_START", "META_STOP", "DATA_START", "DATA_STOP", "COVARIANCE_START", "COVARIANCE_STOP"}
KV = re.compile(r"^([A-Z0-9_\-./]+) *= ?(.*)$", re.S)


def parse(text):
    """Logical lines of a KVN text, without blank lines:
    ("comment", text) ("word", w) ("kv", key, rest) ("data", [tokens]) ("junk", line)"""
    out = []
    for raw in text.split("\n"):
        line = raw.strip(" ")
        if not line:
            continue
        if line == "COMMENT" or line.startswith("COMMENT "):
            c = line[7:].strip(" ")
            if c.startswith("="):
                c = c[1:].strip(" ")
            out.append(("comment", c))
        elif line in WORDS:
            out.append(("word", line))
        else:
            m = KV.match(line)
            if m:
                out.append(("kv", m.group(1), m.group(2).strip(" ")))
            elif re.fullmatch(r"[-+0-9.A-Za-z:]+( +[-+0-9.A-Za-z:]+)*", line):
                out.append(("data", line.split()))
            else:
                out.append(("junk", line))
    return out


NUM = re.compile(r"[-+]?(\d+(\.\d*)?|\.\d+)([Ee][-+]?\d+)?$")


def same_value(exp, act, numeric):
    if exp == act:
        return True
    if not numeric or not NUM.match(act) or not NUM.match(exp):
        return False
    try:
        return Decimal(exp) == Decimal(act)
    except InvalidOperation:
        return False


def diff(expected, text, limit=4):
    """expected: render_kvn.lines_of(tree) (with value types); differences as strings."""
    act = parse(text)
    out = []
    for i in range(max(len(expected), len(act))):
        if len(out) >= limit:
            break
        if i >= len(expected):
            out.append(f"line {i}: unexpected {act[i]}")
            break
        if i >= len(act):
            out.append(f"line {i}: missing {expected[i]}")
            break
        e, a = expected[i], act[i]
        bad = None
        if e[0] != a[0]:
            bad = True
        elif e[0] == "comment" or e[0] == "word":
            bad = e[1] != a[1]
        elif e[0] == "data":
            bad = len(e[1]) != len(a[1]) or not all(same_value(x, y, j > 0 or "T" not in x)
                                                     for j, (x, y) in enumerate(zip(e[1], a[1])))
        else:
            v, u = a[2], None
            if e[3] is not None:
                m = re.fullmatch(r"(.*?) *\[([^\[\]]*)\]", v, re.S)
                if m:
                    v, u = m.group(1), m.group(2).strip(" ")
            if e[4] == "obs":
                x, y = e[2].split(), v.split()
                same = len(x) == len(y) == 2 and x[0] == y[0] and same_value(x[1], y[1], True)
            else:
                same = same_value(e[2], v, e[4] == "num")
            bad = e[1] != a[1] or not same or u != e[3]
        if bad:
            out.append(f"line {i}: expected {e}, got {a}")
            if e[0] != a[0]:
                break
    return out
