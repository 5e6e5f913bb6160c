"""C01-C15: reading, writing, round trips, conversion."""
import copy
import random
import re
import xml.etree.ElementTree as ET

from . import compare, gen, parse_kvn, parse_xml, render_kvn, render_xml, schema, shrinkers
from .base import (KEYVALUE, RULE_TREE, SEGMENTED, F, R, TreeProp, build, must_equal, must_say, read, render, write)
from .engine import Fail, Prop, api, rejects


class Read(TreeProp):
    rule = RULE_TREE
    styled = 0.2

    def check(self, case):
        s = render(case["tree"], self.fmt, case["style"])
        must_equal(case["tree"], read(s), "the object read differs from the file", kvn=self.fmt == "kvn")


class C01(Read):
    id, fmt, quick, thorough, blanks = "C01", "xml", 12000, 100000, 0.15


class C02(TreeProp):
    id, fmt, rule, quick, thorough, blanks = "C02", "xml", RULE_TREE, 10000, 80000, 0.15

    def gen(self, rng, i):
        c = super().gen(rng, i)
        loc = ["http://x/y.xsd", "urn:a http://x/a.xsd", "http://sanaregistry.org/r/ndmxml/ndmxml-1.0-master.xsd", "a&b \"q\" <'>"]
        c["kw"] = {k: rng.choice(loc) for k in ("schema_location", "no_namespace_schema_location") if rng.random() < 0.35}
        return c

    def check(self, case):
        kw = case["kw"]
        attrs = {{"schema_location": "schemaLocation"}.get(k, "noNamespaceSchemaLocation"): v for k, v in kw.items()}
        s = write(build(case["tree"]), "xml", **kw)
        must_say(case["tree"], s, "xml", "the XML written differs from the object", attrs)

    def shrink(self, case):
        for k in case["kw"]:
            yield dict(case, kw={x: v for x, v in case["kw"].items() if x != k})
        yield from super().shrink(case)


class C03(TreeProp):
    id, fmt, rule, quick, thorough, styled = "C03", "xml", RULE_TREE, 4000, 60000, 0.6
    blanks = 0.2

    def check(self, case):
        o1 = read(render(case["tree"], "xml", case["style"]))
        s1 = write(o1, "xml")
        o2 = read(s1, "reading back the XML just written")
        must_equal(case["tree"], o2, "after XML read, write and read")
        if not (o1 == o2):
            raise Fail("the object read back from the written XML is not equal to the object written")
        s2 = write(o2, "xml")
        if s1 != s2:
            raise Fail("writing the message a second time gives another XML text")


class C04(Prop):
    id, quick, thorough = "C04", 10000, 100000
    rule = "the unbroken message has at least 15 values; the broken one differs from it by one illegal edit"
    KINDS = ["unknown", "unknown-deep", "misplaced", "renamed", "twice", "namespace", "root", "root-other", "wrapped",
             "ndm-extra", "ndm-comment-only", "cut", "tag-broken", "amp", "declaration"]
    DECLARATIONS = ['<?xml?>', '<?xml encoding="UTF-8"?>', '<?xml version="1.0" encoding=UTF-8?>', '<?xml version=1.0?>', '<?xml version="1.0" standalone="maybe"?>',
                    '<?xml version="1.0" foo="bar"?>', '<?xml version="1.0"?><?xml version="1.0"?>', '<!-- x --><?xml version="1.0"?>', '<?xml version="1.0"', '<?xml version="1.0">',
                    '<?xml version="1.0" encoding="UTF-8\'?>', '<?xml encoding="UTF-8" version="1.0"?>', '<?xml version="1.0" version="1.0"?>', '<?xml ?>', '<xml version="1.0"?>']

    def gen(self, rng, i):
        return {"tree": gen.sweep(rng, "xml", schema.ROOTS, i * 7, max_list=2, rows=3), "kind": self.KINDS[i % len(self.KINDS)],
                "seed": rng.randrange(10 ** 9), "combined": rng.random() < 0.15}

    def broken(self, case):
        rng = random.Random(case["seed"])
        s = render_xml.text(case["tree"])
        k = case["kind"]
        if case["combined"]:
            ndm = ET.Element("ndm")
            ET.SubElement(ndm, "MESSAGE_ID").text = "1"
            ndm.append(ET.fromstring(s.encode()))
            s = ET.tostring(ndm, encoding="unicode")
        if k == "declaration":
            return rng.choice(self.DECLARATIONS) + rng.choice(["", "\n"]) + re.sub(r"^\s*<\?xml.*?\?>", "", s, flags=re.S).lstrip()
        if k == "cut":
            s = s.rstrip()
            k = rng.randrange(s.index("<" + ("ndm" if case["combined"] else schema.TAG[case["tree"]["_c"]])) + 1, len(s))
            return s[:k] + (rng.choice(["", ">"]) if k < len(s) - 1 else "")
        if k == "tag-broken":
            at = rng.choice([j for j in range(len(s)) if s[j:j + 2] == "</"])
            return s[:at] + s[at + rng.choice([1, 2]):] if rng.random() < 0.5 else s[:at] + s[at:].replace(">", "", 1)
        if k == "amp":
            at = s.index(">", s.rindex("<header"))
            at = rng.choice([j for j in range(at, len(s)) if s[j:j + 2] == "</"])
            return s[:at] + rng.choice(["&", "<", "&undefined;"]) + s[at:]
        root = ET.fromstring(s.encode())
        top = list(root)[-1] if case["combined"] else root
        els = list(top.iter())
        inner = [e for e in els if len(e)]
        leaf = [e for e in els if not len(e)]
        name = rng.choice(["FOO", "EPOCHS", "foo", "Epoch", "UNKNOWN_KEYWORD", "segments"])
        if k == "unknown":
            e = rng.choice(inner)
            e.insert(rng.randrange(len(e) + 1), el(name, rng.choice(["1", "x", ""])))
        elif k == "unknown-deep":
            x = el(name)
            x.append(copy.deepcopy(rng.choice(els)))
            e = rng.choice(inner)
            e.insert(rng.randrange(len(e) + 1), x)
        elif k == "misplaced":
            # a real element where it does not belong: a leaf inside a leaf, or a block inside another
            if rng.random() < 0.5:
                rng.choice(leaf).append(el("EPOCH", "2000-01-01T00:00:00"))
            else:
                rng.choice([x for x in inner if x.tag not in ("body",)] or inner).append(el(rng.choice(["body", "header"])))
        elif k == "renamed":
            e = rng.choice(els[1:])
            e.tag = rng.choice([e.tag.swapcase(), e.tag + "_", e.tag[:-1] + "0"])
        elif k == "twice":
            single = [(e, x) for e, c in classes(top, case["tree"]["_c"]) for x in e
                      if not [f for f in schema.CLASSES[c] if f["xml"] == x.tag][0].get("list")]
            e, x = rng.choice(single)
            e.insert(rng.choice([list(e).index(x), list(e).index(x) + 1, len(e)]), copy.deepcopy(x))
        elif k == "namespace":
            rng.choice(els).tag = "{urn:x}" + rng.choice(els).tag
        elif k == "root":
            top.tag = rng.choice(["foo", "OPM", "opms", "oem2", "message", top.tag.upper(), "ndms"])
        elif k == "root-other":
            top.tag = rng.choice([x for x in schema.TAG.values() if x in ("header", "body", "segment", "metadata")] + ["segment", "metadata", "spacecraftParametersType"])
        elif k == "wrapped":
            x = el(rng.choice(["foo", "ndms", "NDM", "root"]))
            x.append(root)
            root = x
        elif k == "ndm-extra":
            if not case["combined"]:
                x = el("ndm")
                x.append(root)
                root = x
            root.insert(rng.randrange(len(root) + 1), el(name, "1"))
        elif k == "ndm-comment-only":
            top.append(el("ndm"))
        return ET.tostring(root, encoding="unicode")

    def check(self, case):
        s = self.broken(case)
        for io in (R().NdmIo, R().NdmXmlIo):
            rejects(f"{io.__name__}: XML that is not an NDM message ({case['kind']})", lambda: io().from_string(s))

    def nontrivial(self, case):
        return schema.count_leaves(case["tree"]) >= 15

    def labels(self, case):
        return ["edit:" + case["kind"], "type:" + case["tree"]["_c"]] + (["combined"] if case["combined"] else [])

    def shrink(self, case):
        for c in shrinkers.case(case):
            for j in range(3):
                yield dict(c, seed=case["seed"] + j)

    def show(self, case):
        return self.broken(case)


def classes(e, c):
    """(element, class) for every element with children classes."""
    yield e, c
    fs = {f["xml"]: f for f in schema.CLASSES[c] if f["kind"] == "element"}
    for x in e:
        if fs[x.tag]["type"] in schema.CLASSES:
            yield from classes(x, fs[x.tag]["type"])


def el(tag, text=None):
    e = ET.Element(tag)
    e.text = text
    return e


class C05(TreeProp):
    id, fmt, quick, thorough, styled, blanks = "C05", "xml", 3000, 60000, 1.0, 0.15
    rule = RULE_TREE + " and the two texts differ"

    def gen(self, rng, i):
        c = super().gen(rng, i)
        if c["style"]["decl"] and rng.random() < 0.3:   # these are texts, decoded already: the encoding named says nothing
            c["style"]["decl"] = '<?xml version="1.0" encoding="%s"?>\n' % rng.choice(["ISO-8859-1", "US-ASCII", "UTF-16", "windows-1252", "utf8", "Latin-1"])
        return c

    def check(self, case):
        a = read(render(case["tree"], "xml"))
        b = read(render(case["tree"], "xml", case["style"]), "reading the same XML laid out differently")
        if not (a == b):
            d = compare.diff(case["tree"], b) or compare.diff(case["tree"], a)
            raise Fail(f"the same XML content laid out differently is read differently: {d[:3]}")


class C06(Read):
    id, roots, quick, thorough = "C06", KEYVALUE, 14000, 100000


class C07(Read):
    id, roots, quick, thorough = "C07", ["Cdm"], 6000, 50000


class C08(Read):
    id, roots, quick, thorough = "C08", ["Oem"], 9000, 60000


class C09(Read):
    id, roots, quick, thorough = "C09", ["Aem"], 7000, 60000


class C10(Read):
    id, roots, quick, thorough = "C10", ["Tdm"], 9000, 60000


class C11(TreeProp):
    id, quick, thorough, styled = "C11", 4000, 80000, 1.0
    rule = RULE_TREE + " and the two texts differ"

    def check(self, case):
        a = read(render(case["tree"], "kvn"))
        b = read(render(case["tree"], "kvn", case["style"]), "reading the same KVN laid out differently")
        if not (a == b):
            d = compare.diff(case["tree"], b, kvn=True) or compare.diff(case["tree"], a, kvn=True)
            raise Fail(f"the same KVN content laid out differently is read differently: {d[:3]}")


class WriteKvn(TreeProp):
    rule = RULE_TREE

    def gen(self, rng, i):
        # what may be in the object but not in the KVN data lines: units
        c = super().gen(rng, i)
        if self.roots is SEGMENTED and i % 2:
            c["tree"] = gen.sweep(rng, "kvn", self.roots, i, data_units=True)
            gen.prune(c["tree"])
        return c

    def check(self, case):
        must_say(case["tree"], write(build(case["tree"]), "kvn"), "kvn", "the KVN written differs from the object")


class C12(WriteKvn):
    id, roots, quick, thorough = "C12", KEYVALUE + ["Cdm"], 20000, 100000


class C13(WriteKvn):
    id, roots, quick, thorough = "C13", SEGMENTED, 15000, 80000


class C14(TreeProp):
    id, rule, quick, thorough = "C14", RULE_TREE, 7000, 60000

    def check(self, case):
        s1 = write(build(case["tree"]), "kvn")
        o2 = read(s1, "reading back the KVN just written")
        must_equal(case["tree"], o2, "after KVN write and read", kvn=True)
        s2 = write(o2, "kvn")
        must_say(case["tree"], s2, "kvn", "the KVN written again differs from the message")
        o3 = read(s2, "reading back the KVN written again")
        if not (o2 == o3):
            raise Fail("the object read back from the KVN written again is not equal to the object written")


class C15(TreeProp):
    id, rule, quick, thorough = "C15", RULE_TREE, 5000, 60000

    def gen(self, rng, i):
        c = super().gen(rng, i)
        c["from"] = rng.choice(["kvn", "xml"])
        return c

    def check(self, case):
        t = case["tree"]
        nc = without_comments(t)
        a, b = read(render(t, "kvn")), read(render(t, "xml"))
        must_equal(t, b, "the XML form")
        if case["from"] == "kvn":
            s = write(a, "xml")
            must_equal(t, read(s, "reading the XML converted from KVN"), "KVN converted to XML", kvn=True)
            x = strip_xml_comments(s)
            must_say(nc, x, "xml", "the XML converted from KVN differs from the message")
        else:
            s = write(b, "kvn")
            must_say(t, s, "kvn", "the KVN converted from XML differs from the message")
            must_equal(t, read(s, "reading the KVN converted from XML"), "XML converted to KVN", kvn=True)
        if '"comment"' not in str(t).replace("'", '"') and not (a == b):
            raise Fail("the objects read from the KVN and the XML form of the same message are not equal")


def without_comments(t):
    t = copy.deepcopy(t)
    for _, _, n in list(schema.walk(t)):
        n.pop("comment", None)
    return t


def strip_xml_comments(s):
    try:
        root = ET.fromstring(s.encode())
    except ET.ParseError as e:
        raise Fail(f"the XML written is not well-formed: {e}")
    for e in list(root.iter()):
        for k in [k for k in e if k.tag == "COMMENT"]:
            e.remove(k)
    return ET.tostring(root, encoding="unicode")


PROPS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15]
