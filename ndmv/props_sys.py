"""C16-C26: entry points, files, histories, independence, edits, robustness, scale."""
import copy
import json
import locale
import math
import os
import random
import resource
import re
import signal
import xml.etree.ElementTree as ET
from decimal import Decimal, InvalidOperation
from pathlib import Path, PurePosixPath
from xml.parsers import expat

from . import compare, gen, parse_kvn, parse_xml, render_kvn, render_xml, schema, shrinkers
from .base import (KEYVALUE, RULE_TREE, SEGMENTED, F, R, TreeProp, at, build, flat, leaves_of, must_equal, must_say, nodes,
                   read, render, tree_labels, write)
from .props_rw import without_comments
from .engine import CASE_SECONDS, Fail, Prop, api, rejects

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")
FMTS = ["kvn", "xml"]


def corpus():
    """(name, format, text) of the sample messages."""
    out = []
    for n in sorted(os.listdir(CORPUS)):
        out.append((n, n.rsplit(".", 1)[1], open(os.path.join(CORPUS, n), encoding="utf-8").read()))
    return out


def small(rng, fmt, root=None, **knobs):
    k = dict(max_list=2, rows=3)
    k.update(knobs)
    return gen.message(rng, fmt, root, **k)


def io_of(fmt, low):
    r = R()
    return (r.NdmKvnIo if fmt == "kvn" else r.NdmXmlIo)() if low else r.NdmIo()


class AnyPath:
    """An os.PathLike that is not a pathlib.Path."""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


FILES = ["out.ndm", "out", ".hidden", ".xml", "x.kvn", "x.xml", "OUT.XML", "x.oem", "x.json", "x.gz", "x.xml.gz", "x.zip", "x.bak", "x.", "a b.xml", " x ", "-x", "~x", "~", "$HOME",
         "%41", "a#b?c.xml", "a\\b", "[x]*.ndm", "x;y&z", "x:y", "http:x", "<opm>", "CCSDS_OPM_VERS = 2.0", "\u00dcbung.txt", "\u822a\u5929", "1", "None", "x" * 200]
PATHS = {"str": str, "Path": Path, "PathLike": AnyPath, "relative": lambda p: os.path.basename(p), "PurePath": PurePosixPath}


# ---------------------------------------------------------------- C16
class C16(Prop):
    id, quick, thorough = "C16", 2000, 60000
    rule = "a message of at least 15 values read through every entry point, or a text that is none of the formats"
    JUNK = ["", " ", "\n\n", "hello", "CCSDS", "ccsds_opm_vers = 2.0", "OPM_VERS = 2.0", "<opm", "opm>", "{\"a\": 1}", "[1, 2", "1]",
            "COMMENT x\nCCSDS_OPM_VERS = 2.0", "> <", "x<opm></opm>", "<opm></opm> x", "= CCSDS_OPM_VERS", "\x00", "META_START", "{}", "-<a/>",
            "\"CCSDS_OPM_VERS = 2.0\"", "(x)", "ÄÖ", "<a/>]", "[<a/>", "1", "null"]
    JSON = ["[]", "[1]", "[{\"opm\": {}}]", "  [ \n ] \n", "[\"CCSDS_OPM_VERS = 2.0\"]", "[<opm/>]", "[[1], [2]]"]

    def gen(self, rng, i):
        if i % 6 == 5:
            kind = rng.choice(["junk", "json", "jsonout", "badbytes", "nofile"])
            c = {"kind": kind, "text": rng.choice(self.JSON if kind == "json" else self.JUNK)}
            if kind == "junk" and rng.random() < 0.5:
                w = render(small(rng, "kvn", p_opt=0.0), "kvn")
                c["text"] = rng.choice(["X", "# ", "%%", "COMMENT a\n", "\"", "META_START\n", "\ufeff "[1:] + "0"]) + w
            if kind == "jsonout":
                c["tree"] = small(rng, "kvn", p_opt=0.2)
            return c
        fmt = rng.choice(FMTS)
        m = render_kvn if fmt == "kvn" else render_xml
        tree = gen.sweep(rng, fmt, schema.ROOTS, i * 3, max_list=2, rows=4)
        ws = [rng.choice(["", "", " ", "\n", "\n\n  ", "\t\n", "\r\n"]) for _ in range(2)]
        st = m.style(rng) if rng.random() < 0.5 else dict(m.PLAIN)
        if fmt == "xml" and st["decl"]:
            ws[0] = ws[0] if rng.random() < 0.3 else ""
        return {"kind": "read", "fmt": fmt, "tree": tree, "style": st, "ws": ws, "file": rng.choice(["in.txt"] * 5 + FILES)}

    def text(self, c):
        s = render(c["tree"], c["fmt"], c["style"])
        return c["ws"][0] + s + c["ws"][1]

    def check(self, c):
        r = R()
        if c["kind"] == "read":
            s, fmt, tree = self.text(c), c["fmt"], c["tree"]
            p = os.path.abspath(c.get("file", "in.txt"))
            with open(p, "wb") as f:
                f.write(s.encode("utf-8"))
            first = None
            for low in (False, True):
                calls = {"from_string": lambda io: io.from_string(s), "from_bytes": lambda io: io.from_bytes(s.encode("utf-8"))}
                for k in ("str", "Path", "PathLike", "relative"):
                    calls[f"from_path({k})"] = lambda io, k=k: io.from_path(PATHS[k](p))
                for name, call in calls.items():
                    io = io_of(fmt, low)
                    what = f"{type(io).__name__}.{name}"
                    o = api(what, call, io)
                    if first is None:
                        first = o
                        must_equal(tree, o, what, kvn=fmt == "kvn")
                    elif type(o) is not type(first) or not (o == first):
                        d = compare.diff(tree, o, kvn=fmt == "kvn")
                        raise Fail(f"{what} reads another object than NdmIo.from_string: {d[:3]}")
            os.remove(p)
            return
        if c["kind"] == "jsonout":
            o = build(c["tree"])
            out = os.path.abspath("x.json")
            if os.path.exists(out):
                os.remove(out)
            for what, call in (("to_string", lambda: r.NdmIo().to_string(o, F("json"))),
                               ("to_file", lambda: r.NdmIo().to_file(o, F("json"), out))):
                e = rejects(f"{what} as JSON", call)
                if not isinstance(e, NotImplementedError):
                    raise Fail(f"{what} as JSON raised {type(e).__name__}, not NotImplementedError")
            if os.path.exists(out):
                raise Fail("refused JSON output created the file")
            return
        p = os.path.abspath("bad.txt")
        if c["kind"] == "nofile":
            if os.path.exists(p):
                os.remove(p)
            for path in (p, os.path.join(p, "x.ndm"), os.path.dirname(p), c["text"] + " "):
                if path.strip() and "\0" not in path:
                    for io in (r.NdmIo(), r.NdmKvnIo(), r.NdmXmlIo()):
                        rejects(f"{type(io).__name__}.from_path of a path that is not a file ({path[:60]!r})", io.from_path, path)
            return
        data = b"\xff\xfe\x80" + c["text"].encode("utf-8") if c["kind"] == "badbytes" else c["text"].encode("utf-8")
        with open(p, "wb") as f:
            f.write(data)
        calls = [("from_bytes", lambda: r.NdmIo().from_bytes(data)), ("from_path", lambda: r.NdmIo().from_path(p))]
        if c["kind"] != "badbytes":
            calls.append(("from_string", lambda: r.NdmIo().from_string(c["text"])))
        want = NotImplementedError if c["kind"] == "json" else ValueError
        for name, call in calls:
            e = rejects(f"{name} of {c['text'][:60]!r}", call)
            if not isinstance(e, want):
                raise Fail(f"{name} of {c['text'][:60]!r} ({c['kind']}) raised {type(e).__name__} ({e}), not {want.__name__}")

    def nontrivial(self, c):
        return c["kind"] != "read" or schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        return ["kind:" + c["kind"]] + (["fmt:" + c["fmt"], "type:" + c["tree"]["_c"]] if c["kind"] == "read" else [])

    def shrink(self, c):
        if c["kind"] == "read":
            if c["ws"] != ["", ""]:
                yield dict(c, ws=["", ""])
            yield from shrinkers.case(c, (render_kvn if c["fmt"] == "kvn" else render_xml).PLAIN)
        elif "tree" in c:
            yield from shrinkers.case(c)

    def show(self, c):
        return self.text(c) if c["kind"] == "read" else json.dumps(c)


# ---------------------------------------------------------------- C17
class C17(Prop):
    id, quick, thorough = "C17", 2000, 50000
    rule = "the combined message holds at least two messages, or exactly one that must be unwrapped"

    def gen(self, rng, i):
        return {"tree": gen.combined(rng), "style": render_xml.style(rng) if rng.random() < 0.4 else dict(render_xml.PLAIN),
                "mix": rng.randrange(10 ** 6) if rng.random() < 0.4 else None,
                "xsi": rng.random() < 0.15, "source": rng.choice(["xml", "built"])}

    def text(self, c):
        s = self.layout(c)
        if c.get("xsi") and "xsi:" not in s:      # the files of a well known source do not declare the prefix
            s = s.replace("<ndm", '<ndm xsi:noNamespaceSchemaLocation="http://x/ndmxml-1.0-master.xsd"', 1)
        return s

    def layout(self, c):
        s = render_xml.text(c["tree"], dict(c["style"], indent=2, notes=False) if c["mix"] is not None else c["style"])
        if c["mix"] is None:
            return s
        rng = random.Random(c["mix"])             # the messages in any order of types
        root = ET.fromstring(s.strip().encode())
        kids = [e for e in root if e.tag not in ("MESSAGE_ID", "COMMENT")]
        lists = {}
        for e in kids:
            root.remove(e)
            lists.setdefault(e.tag, []).append(e)
        while lists:
            k = rng.choice(sorted(lists))
            root.append(lists[k].pop(0))
            if not lists[k]:
                del lists[k]
        return ET.tostring(root, encoding="unicode")

    def check(self, c):
        r, t = R(), c["tree"]
        inner = [(k, m) for k, v in t.items() if isinstance(v, list) and k != "comment" for m in v]
        s = self.text(c)
        o = read(s, "reading a combined message")
        p = os.path.abspath("ndm.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(s)
        for what, call in (("NdmXmlIo.from_string", lambda: r.NdmXmlIo().from_string(s)), ("from_path", lambda: r.NdmIo().from_path(p)),
                           ("from_bytes", lambda: r.NdmIo().from_bytes(s.encode("utf-8")))):
            if not (api(what, call) == o):
                raise Fail(f"{what} reads another combined message than from_string")
        single = len(inner) == 1
        must_equal(inner[0][1] if single else t, o, "the single message of a combined file" if single else "the combined message read")
        whole = build(t)
        w = write(whole, "xml")
        must_say(t, w, "xml", "the combined message written as XML differs from the object")
        o2 = read(w, "reading back the combined message written")
        must_equal(inner[0][1] if single else t, o2, "the combined message after write and read")
        if not single:
            must_say(t, write(o, "xml"), "xml", "the combined message read and written differs")
        # KVN has no combined form
        src = whole if c["source"] == "built" or single else o
        out = os.path.abspath("ndm.kvn")
        with open(out, "w", encoding="utf-8") as f:
            f.write("BEFORE")
        if single:
            k = write(src, "kvn")
            if k != write(build(inner[0][1]), "kvn"):
                raise Fail("the KVN of a combined message with one message is not the KVN of that message")
        else:
            for what, call in (("to_string", lambda: r.NdmIo().to_string(src, F("kvn"))), ("to_file", lambda: r.NdmIo().to_file(src, F("kvn"), out))):
                e = rejects(f"KVN {what} of a combined message with {len(inner)} messages", call)
                if not isinstance(e, NotImplementedError):
                    raise Fail(f"KVN {what} of a combined message raised {type(e).__name__}, not NotImplementedError")
            if open(out, encoding="utf-8").read() != "BEFORE":
                raise Fail("the refused KVN output of a combined message changed the file")

    def labels(self, c):
        ks = [k for k, v in c["tree"].items() if isinstance(v, list) and k != "comment"]
        n = sum(len(c["tree"][k]) for k in ks)
        return [f"messages:{n}", f"types:{len(ks)}"] + (["mixed order"] if c["mix"] is not None else []) + ["type:" + k for k in ks]

    def shrink(self, c):
        if c["mix"] is not None:
            yield dict(c, mix=None)
        if c.get("xsi"):
            yield dict(c, xsi=False)
        yield from shrinkers.case(c, render_xml.PLAIN, ok=lambda t: gen.valid(t) and any(isinstance(v, list) and k != "comment" for k, v in t.items()))

    def show(self, c):
        return self.text(c)


# ---------------------------------------------------------------- C18
LOCALES = ["C", "C.UTF-8", "POSIX"]


class C18(Prop):
    id, quick, thorough = "C18", 3000, 60000
    rule = "a message of at least 15 values written to a file, under a locale whose encoding may not be UTF-8"

    def gen(self, rng, i):
        fmt = rng.choice(FMTS)
        t = gen.sweep(rng, fmt, schema.ROOTS, i * 5, max_list=2, rows=4)
        if rng.random() < 0.5:                    # free text outside ASCII
            for path, f in list(leaves_of(t)):
                if f["type"] == "str" and not f.get("pattern") and f["py"] not in ("parameter",) and f.get("fixed") is None and rng.random() < 0.3:
                    at(t, path[:-1])[path[-1]] = rng.choice(["Zürich", "Ångström – 5 µm", "Ж", "航天", "a𝛼b", "é\u0301x"])
        if fmt == "xml" and rng.random() < 0.2:
            gen.blanks(rng, t)
        return {"fmt": fmt, "tree": t, "path": rng.choice(list(PATHS)), "low": rng.random() < 0.4, "locale": rng.choice(LOCALES),
                "file": rng.choice(FILES[:1] * 8 + FILES),
                "before": rng.choice([None, 0, 10, 100000, "same", "same", "text"]), "loc": rng.choice([None, None, "http://x/y.xsd"]),
                "fail": rng.choice([None, None, None, "json", "combined", "broken", "surrogate", "nowhere", "full"]), "limit": rng.randrange(0, 300)}

    def check(self, c):
        old = locale.setlocale(locale.LC_CTYPE)
        try:
            locale.setlocale(locale.LC_CTYPE, c["locale"])
            self._check(c)
        finally:
            locale.setlocale(locale.LC_CTYPE, old)

    def _check(self, c):
        r, t, fmt = R(), c["tree"], c["fmt"]
        o = build(t)
        for old in set(os.listdir(".")) & set(FILES):
            os.remove(os.path.abspath(old))
        p = os.path.abspath(c.get("file", "out.ndm"))
        before = None
        kw = {"no_namespace_schema_location": c["loc"]} if c["loc"] and fmt == "xml" else {}
        if c["before"] is not None:
            before = b"x" * c["before"] if isinstance(c["before"], int) else write(o, fmt, **kw).encode("utf-8")
            if c["before"] == "same":             # as long as what is to come, and newer
                before = b"x" * len(before)
            with open(p, "wb") as f:
                f.write(before)
            if not isinstance(c["before"], int):
                os.utime(p, (4000000000, 4000000000))
        path = PATHS[c["path"]](p)
        if c["fail"]:
            io = r.NdmIo()
            if c["fail"] == "json":
                e = rejects("JSON output", lambda: io.to_file(o, F("json"), path))
            elif c["fail"] == "combined":
                two = r.models.Ndm(opm=[o, o])
                e = rejects("KVN output of a combined message", lambda: io.to_file(two, F("kvn"), path))
            elif c["fail"] == "nowhere":
                e = rejects("output into a folder that is not there", lambda: io.to_file(o, F(fmt), PATHS[c["path"]](os.path.join(p + ".d", "x.ndm")) if c["path"] != "relative" else "no/x.ndm"))
            elif c["fail"] == "full":             # no file of this process may be larger than this
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (c["limit"], old[1]))
                try:
                    e = rejects("output that does not fit on the disk", lambda: io_of(fmt, True).to_file(o, path) if c["low"] else io.to_file(o, F(fmt), path))
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
            elif c["fail"] == "surrogate":        # cannot be encoded
                bad = build(t)
                bad.header.originator = "X\udc80"
                e = rejects("output of a text that UTF-8 does not have", lambda: io_of(fmt, True).to_file(bad, path) if c["low"] else io.to_file(bad, F(fmt), path))
            else:
                e = rejects("output of something that is not a message", lambda: io.to_file({"a": 1}, F(fmt), path))
            now = open(p, "rb").read() if os.path.exists(p) else None
            if now != before and c["fail"] != "full":
                raise Fail(f"output refused with {type(e).__name__}, but the target file changed")
        io = io_of(fmt, c["low"])
        if c["low"]:
            s = api("to_string", lambda: io_of(fmt, True).to_string(o, **kw))
            api(f"{type(io).__name__}.to_file({c['path']})", lambda: io.to_file(o, path, **kw))
        else:
            s = write(o, fmt, **kw)
            api(f"NdmIo.to_file({c['path']})", lambda: io.to_file(o, F(fmt), path, **kw))
        must_say(t, s, fmt, "the text written", {"noNamespaceSchemaLocation": c["loc"]} if kw else None)
        data = open(p, "rb").read()
        if data != s.encode("utf-8"):
            raise Fail(f"the file ({len(data)} bytes) does not hold the UTF-8 text of to_string ({len(s.encode('utf-8'))} bytes)")
        back = api(f"from_path of the file written (locale {c['locale']})", lambda: io_of(fmt, c["low"]).from_path(PATHS[c["path"]](p)))
        must_equal(t, back, f"the file read back (locale {c['locale']})", kvn=fmt == "kvn")
        # a file made elsewhere
        text = render(t, fmt)
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
        must_equal(t, api("from_path", lambda: r.NdmIo().from_path(path)), f"a UTF-8 file read (locale {c['locale']})", kvn=fmt == "kvn")
        must_equal(t, api("from_bytes", lambda: r.NdmIo().from_bytes(text.encode("utf-8"))), f"UTF-8 bytes read (locale {c['locale']})", kvn=fmt == "kvn")
        if os.listdir(".") != [os.path.basename(p)]:
            raise Fail(f"other files appeared: {sorted(os.listdir('.'))}")

    def nontrivial(self, c):
        return schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        out = ["fmt:" + c["fmt"], "path:" + c["path"], "locale:" + c["locale"], "type:" + c["tree"]["_c"], "refused:" + str(c["fail"]), "target:" + str(c["before"])]
        if not json.dumps(c["tree"], ensure_ascii=False).isascii():
            out.append("non-ASCII")
        return out

    def shrink(self, c):
        for k, v in (("file", "out.ndm"), ("fail", None), ("before", None), ("loc", None), ("low", False), ("path", "str")):
            if c.get(k, v) != v:
                yield dict(c, **{k: v})
        yield from shrinkers.case(c)

    def show(self, c):
        return json.dumps({k: v for k, v in c.items() if k != "tree"}) + "\n" + render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C19
class C19(Prop):
    id, quick, thorough = "C19", 2500, 25000
    rule = "at least three operations reuse one I/O object and at least one follows a refused read or another kind of message"
    BAD = ["hello", "CCSDS_OPM_VERS = 2.0", "CCSDS_XYZ_VERS = 1.0\nEPOCH = 2", "<opm><foo/></opm>", "<foo/>", "<opm", "[1]",
           "CCSDS_OEM_VERS = 2.0\nMETA_START\nOBJECT_NAME = X", "CCSDS_TDM_VERS = 2.0\nCREATION_DATE = 2000-01-01T00:00:00\nORIGINATOR = X\nDATA_START",
           "<ndm><opm/></ndm>", "CCSDS_AEM_VERS = 1.0\nCOMMENT\nCOMMENT\n= =\n[ ]"]

    def gen(self, rng, i):
        trees = [small(rng, "kvn", p_opt=rng.choice([0.0, 0.4, 1.0])) for _ in range(rng.randrange(2, 5))]
        if rng.random() < 0.3:
            trees.append(copy.deepcopy(trees[0]))
        ops = []
        for _ in range(rng.randrange(4, 13)):
            k = rng.choice(["read", "read", "read", "write", "write", "bad", "cut", "mutate", "file"])
            op = {"op": k, "io": rng.randrange(6), "t": rng.randrange(len(trees)), "fmt": rng.choice(FMTS)}
            if k == "bad":
                op["text"] = rng.choice(self.BAD)
            if k == "cut":
                op["at"] = rng.random()
            if k in ("write", "file") and op["fmt"] == "xml" and rng.random() < 0.5:
                op["kw"] = {rng.choice(["schema_location", "no_namespace_schema_location"]): rng.choice(["http://x/y.xsd", "urn:a b.xsd"])}
            ops.append(op)
        return {"trees": trees, "ops": ops}

    def check(self, c):
        r = R()
        ios = [r.NdmIo(), r.NdmIo(), r.NdmXmlIo(), r.NdmXmlIo(), r.NdmKvnIo(), r.NdmKvnIo()]
        results = []                              # (tree index, object, is KVN), not touched by us since

        def all_hold(step):
            for ti, o, k in results:
                d = compare.diff(c["trees"][ti], o, kvn=k)
                if d:
                    raise Fail(f"an object read earlier changed after step {step}: {d[:2]}")
        for n, op in enumerate(c["ops"]):
            io, t, fmt = ios[op["io"]], c["trees"][op["t"]], op["fmt"]
            if op["io"] in (2, 3):
                fmt = "xml"
            if op["io"] in (4, 5):
                fmt = "kvn"
            at_step = f"step {n} ({op['op']} {fmt} on I/O object {op['io']})"
            if op["op"] == "read":
                o = api(at_step, io.from_string, render(t, fmt))
                must_equal(t, o, at_step, kvn=fmt == "kvn")
                results.append((op["t"], o, fmt == "kvn"))
            elif op["op"] in ("bad", "cut"):
                s = op["text"] if op["op"] == "bad" else render(t, fmt)[:int(op["at"] * 400)]
                try:
                    io.from_string(s)             # whether it is refused is not the point here
                except Exception:
                    pass
            elif op["op"] in ("write", "file"):
                o, src_kvn = build(t), False
                for ti, x, k in results[::-1]:
                    if ti == op["t"]:
                        o, src_kvn = x, k
                        break
                kw = op.get("kw", {}) if fmt == "xml" else {}
                if op["op"] == "write":
                    s = api(at_step, lambda: io.to_string(o, **kw) if op["io"] > 1 else io.to_string(o, F(fmt), **kw))
                else:
                    p = Path(f"h{n}.ndm").absolute()
                    api(at_step, lambda: io.to_file(o, p, **kw) if op["io"] > 1 else io.to_file(o, F(fmt), p, **kw))
                    s = p.read_bytes().decode("utf-8")
                    p.unlink()
                attrs = {{"schema_location": "schemaLocation"}.get(k, "noNamespaceSchemaLocation"): v for k, v in kw.items()}
                if fmt == "kvn":
                    must_say(t, s, "kvn", at_step)
                elif src_kvn:
                    try:
                        top = ET.fromstring(s.encode("utf-8"))
                    except ET.ParseError as e:
                        raise Fail(f"{at_step}: not well-formed: {e}")
                    got = {k[len(parse_xml.XSI):]: v for k, v in top.attrib.items() if k.startswith(parse_xml.XSI)}
                    if got != attrs:
                        raise Fail(f"{at_step}: schema attributes {got}, expected {attrs}")
                    must_equal(t, read(s), at_step, kvn=True)
                else:
                    must_say(t, s, "xml", at_step, attrs)
            elif op["op"] == "mutate" and results:
                j = op["t"] % len(results)
                _, o, _ = results.pop(j)
                scramble(o)
            all_hold(n)

    def nontrivial(self, c):
        used, seen = {}, False
        for n, op in enumerate(c["ops"]):
            before = used.setdefault(op["io"], [])
            if op["op"] in ("read", "write", "file") and any(b["op"] in ("bad", "cut") or b["t"] != op["t"] for b in before):
                seen = True
            before.append(op)
        return seen and max(map(len, used.values())) >= 3

    def labels(self, c):
        return [f"ops:{len(c['ops']) // 4 * 4}+"] + ["op:" + o["op"] for o in c["ops"]] + ["type:" + t["_c"] for t in c["trees"]]

    def shrink(self, c):
        n = len(c["ops"])
        for k in (n // 2, n // 4, 1):
            if k:
                for j in range(0, n, k):
                    yield dict(c, ops=c["ops"][:j] + c["ops"][j + k:])
        for i, t in enumerate(c["trees"]):
            for x in shrinkers.trees(t):
                if x is not None:
                    yield dict(c, trees=c["trees"][:i] + [x] + c["trees"][i + 1:])

    def show(self, c):
        return json.dumps(c["ops"]) + "\n" + "\n".join(render(t, "kvn") for t in c["trees"])[:3000]


def scramble(o):
    """Overwrites everything that can be overwritten in an object tree."""
    for _, n in list(nodes(o)):
        if isinstance(n, list):
            n.append("scrambled")
            n.reverse()
        elif isinstance(n, dict):
            n.clear()
        else:
            for k in list(vars(n)):
                if not isinstance(getattr(n, k), list):
                    try:
                        setattr(n, k, None)
                    except Exception:
                        pass


# ---------------------------------------------------------------- C20
ODD = {"empty": lambda v: "", "none": lambda v: None, "blank": lambda v: "  ", "int": lambda v: 0, "float": lambda v: 1.5,
       "text": lambda v: str(getattr(v, "value", v)) if not isinstance(v, list) else v, "padded": lambda v: f" {v} ",
       "lower": lambda v: v.lower() if isinstance(v, str) else v, "upper": lambda v: v.upper() if isinstance(v, str) else v,
       "tuple": lambda v: tuple(v) if isinstance(v, list) else v, "long": lambda v: f"{v} " * 40,
       "emptylist": lambda v: [] if isinstance(v, list) else v, "zero": lambda v: Decimal("0.000") if isinstance(v, Decimal) else v,
       "new": lambda v: v}


def snapshot(o, path="", out=None):
    """Everything an object holds, down to types and spelling of the values."""
    out = {} if out is None else out
    if hasattr(o, "__dataclass_fields__"):
        out[path] = type(o).__name__ + " " + " ".join(vars(o))
        for k, v in vars(o).items():
            snapshot(v, f"{path}/{k}", out)
    elif isinstance(o, (list, tuple)):
        out[path] = f"{type(o).__name__} {len(o)}"
        for i, e in enumerate(o):
            snapshot(e, f"{path}[{i}]", out)
    else:
        out[path] = f"{type(o).__name__} {o!r}"
    return out


class C20(Prop):
    id, quick, thorough = "C20", 2500, 40000
    rule = RULE_TREE

    def gen(self, rng, i):
        fmt = rng.choice(FMTS)
        if rng.random() < 0.1:
            c = {"fmt": "xml", "tree": gen.combined(rng)}
        else:
            c = {"fmt": fmt, "tree": gen.sweep(rng, fmt, schema.ROOTS, i * 3)}
        ps = [list(p) for p, f in leaves_of(c["tree"]) if f.get("fixed") is None]
        c["odd"] = [[p[:-1] if rng.random() < 0.2 and isinstance(p[-1], str) and len(p) > 1 else p, rng.choice(list(ODD))]
                    for p in rng.sample(ps, min(len(ps), rng.choice([1, 1, 2, 4])))]
        return c

    def odd_object(self, c):
        """The object with unusual values in it, which writing may or may not accept."""
        o = build(c["tree"])
        for p, k in c["odd"]:
            try:
                n = at(o, p[:-1])
                if isinstance(p[-1], int):
                    n[p[-1]] = ODD[k](n[p[-1]])
                elif k == "new":
                    cls = type(getattr(n, p[-1]))
                    setattr(n, p[-1], cls() if hasattr(cls, "__dataclass_fields__") or cls is list else None)
                else:
                    setattr(n, p[-1], ODD[k](getattr(n, p[-1])))
            except (AttributeError, IndexError, KeyError, TypeError):
                pass                              # an earlier change removed the place
        return o

    def check(self, c):
        t, fmt = c["tree"], c["fmt"]
        # whatever writing thinks of it, it leaves the object alone
        if c.get("odd"):
            o = self.odd_object(c)
            was, shape = snapshot(o), [(p, id(n)) for p, n in nodes(o)]
            for f in FMTS:
                try:
                    R().NdmIo().to_string(o, F(f))
                except Exception:                 # refusing is fine here
                    pass
                if snapshot(o) != was or [(p, id(n)) for p, n in nodes(o)] != shape:
                    now = snapshot(o)
                    raise Fail(f"writing {f.upper()} changed the object: " + "; ".join(
                        f"{k}: {was.get(k)} became {now.get(k)}" for k in sorted(set(was) | set(now)) if was.get(k) != now.get(k))[:300])
        text = render(t, fmt)
        kvn = fmt == "kvn"
        ndm = t["_c"] == "Ndm"
        outs = ["xml"] if fmt == "xml" else FMTS
        # writing leaves the object alone and is a function of the object
        o = build(t)
        shape = [(p, id(n)) for p, n in nodes(o)]
        twin, was = copy.deepcopy(o), snapshot(o)
        first = {f: write(o, f) for f in outs}
        for f in outs + outs[::-1]:
            if write(o, f) != first[f]:
                raise Fail(f"writing the same object again gives another {f.upper()} text")
            must_equal(t, o, f"the object after writing {f.upper()}")
        if [(p, id(n)) for p, n in nodes(o)] != shape or snapshot(o) != was:
            raise Fail("writing replaced parts of the object")
        for f in outs:
            if write(twin, f) != first[f]:
                raise Fail(f"equal objects give different {f.upper()} texts")
        # reading: equal, independent results
        if ndm:
            inner = [m for k, v in t.items() if isinstance(v, list) and k != "comment" for m in v]
            t = inner[0] if len(inner) == 1 else t
        a, b = read(text), read(text)
        if not (a == b):
            raise Fail("reading the same text twice gives objects that are not equal")
        seen = {}
        for o in (a, b):
            for p, n in nodes(o):
                if id(n) in seen:
                    raise Fail(f"{p} is the same object as {seen[id(n)]}: parts of results are shared")
                seen[id(n)] = p
        scramble(a)
        must_equal(t, b, "an object read, after another one read from the same text was changed", kvn=kvn)
        must_equal(t, read(text), "the text read again, after an earlier result was changed", kvn=kvn)
        # constructors do not share default lists
        m = R().models
        for cls in {n["_c"] for _, _, n in schema.walk(t)}:
            x, y = getattr(m, cls)(), getattr(m, cls)()
            for k, v in vars(x).items():
                if isinstance(v, (list, dict)) and v is getattr(y, k):
                    raise Fail(f"two new {cls} objects share {k}")

    def nontrivial(self, c):
        return schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        return ["fmt:" + c["fmt"]] + tree_labels(c["tree"])

    def shrink(self, c):
        yield from shrinkers.case(c)

    def show(self, c):
        return render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C21
def hard_number(rng, f):
    n = rng.choice([1, 3, 17, 18, 28, 29, 30, 40, 60, 80])
    if f["type"] == "int":
        s = rng.choice("123456789") + gen.digits(rng, rng.choice([1, 9, 10, 18, 19, 20, 30]))
        if f.get("hi") is not None and int(s) > int(f["hi"]):
            return f["hi"]
        return s
    d = gen.digits(rng, n)
    k = rng.randrange(7)
    if f.get("hi") is not None:                   # a small magnitude inside [lo, hi]
        s = "0." + d
        if Decimal(f["hi"]) <= 0:
            s = "-" + s
        return s if Decimal(s) != 0 else gen.decimal_lex(rng, f.get("lo"), f.get("hi"), f.get("lo_excl"), f.get("hi_excl"))
    sign = "" if f.get("lo") is not None else rng.choice(["", "-", "+"])
    if k == 0:
        s = d.lstrip("0") or "7"
    elif k == 1:
        s = "0." + "0" * rng.randrange(0, 30) + d
    elif k == 2:
        s = (d[:n // 2].lstrip("0") or "0") + "." + d[n // 2:] + "0" * rng.randrange(1, 6)
    elif k == 3:
        s = "9" * n + "." + "9" * rng.randrange(1, 30)
    elif k == 4:
        s = "1." + d + rng.choice(["E+", "e-", "E", "e+0", "E-"]) + str(rng.choice([1, 9, 28, 29, 99, 300]))
    elif k == 5:
        s = rng.choice(["0.1", "0.2", "0.3", "1.005", "2.675", "123456789.123456789", "1E+22", "9007199254740993", "5e-324", "1.7976931348623159E+308"])
    else:
        s = "1" + "0" * rng.randrange(1, 40) + rng.choice(["", ".0", ".000", "." + d])
    s = sign + s
    return s if Decimal(s) != 0 or not f.get("lo_excl") else "1"


class C21(TreeProp):
    id, quick, thorough = "C21", 4000, 80000
    rule = "at least five numbers have more than 17 significant digits or an exponent beyond +-22"

    def gen(self, rng, i):
        fmt = FMTS[i % 2]
        t = gen.sweep(rng, fmt, schema.ROOTS, i // 2, max_list=2, rows=4)
        for path, f in list(leaves_of(t)):
            if f["type"] in ("Decimal", "int") and rng.random() < 0.7:
                at(t, path[:-1])[path[-1]] = hard_number(rng, f)
        return {"fmt": fmt, "tree": t, "style": dict((render_kvn if fmt == "kvn" else render_xml).PLAIN)}

    def check(self, c):
        t, fmt = c["tree"], c["fmt"]
        o = read(render(t, fmt))
        must_equal(t, o, f"numbers read from {fmt.upper()}", kvn=fmt == "kvn")
        b = build(t)
        s = write(b, fmt)
        must_say(t, s, fmt, f"numbers written to {fmt.upper()}")
        must_equal(t, read(s), f"numbers after {fmt.upper()} write and read", kvn=fmt == "kvn")
        if fmt == "kvn":
            must_equal(t, read(write(o, "xml")), "numbers converted from KVN to XML", kvn=True)
            must_say(t, write(read(render(t, "xml")), "kvn"), "kvn", "numbers converted from XML to KVN")

    def hard(self, t):
        n = 0
        for path, f in leaves_of(t):
            if f["type"] in ("Decimal", "int"):
                d = Decimal(at(t, path))
                n += len(d.as_tuple().digits) > 17 or abs(d.adjusted()) > 22
        return n

    def nontrivial(self, c):
        return self.hard(c["tree"]) >= 5

    def labels(self, c):
        return ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"]]

    def shrink(self, c):
        yield from shrinkers.case(c)

    def show(self, c):
        return render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C22
class C22(Prop):
    id, quick, thorough = "C22", 2200, 30000
    rule = "at least two different segments"

    def gen(self, rng, i):
        fmt = rng.choice(["kvn", "kvn", "xml"])
        root = rng.choice(SEGMENTED + ["Cdm"])
        if root == "Cdm":
            t = gen.message(rng, fmt, "Cdm")
            return {"fmt": fmt, "tree": t, "order": [1, 0]}
        prof_list = rng.choice([2, 3, 4])
        t = gen.message(rng, fmt, root, max_list=prof_list, rows=rng.choice([1, 3, 8]))
        want = rng.randrange(2, 6)
        while len(t["body"]["segment"]) < want:
            t["body"]["segment"] += gen.message(rng, fmt, root, max_list=2, rows=rng.choice([1, 2, 4]))["body"]["segment"]
        n = len(t["body"]["segment"])
        order = [rng.randrange(n) for _ in range(rng.randrange(1, n + 2))] if rng.random() < 0.5 else rng.sample(range(n), n)
        return {"fmt": fmt, "tree": t, "order": order, "drop": [rng.randrange(n), rng.random()] if fmt == "kvn" else None}

    def lacking(self, t, i, where):
        """The KVN without one line (or with a line twice) of segment i: that segment alone, and the whole text."""
        ls = render_kvn.lines_of(t)
        starts = [k for k, l in enumerate(ls) if l == ("word", "META_START")] + [len(ls)]
        seg = ls[starts[i]:starts[i + 1]]
        ks = [k for k, l in enumerate(seg) if l[0] in ("kv", "data")]
        special = [k for k in ks if seg[k][1] in ("ATTITUDE_TYPE", "QUATERNION_TYPE", "EULER_ROT_SEQ", "TIME_SYSTEM", "OBJECT_NAME")]
        k = special[int(where * 7919) % len(special)] if special and where < 0.5 else ks[int(where * len(ks))]
        seg = seg[:k] + seg[k + 1:] if int(where * 1000) % 4 else seg[:k] + seg[k:k + 1] + seg[k:]
        return render_kvn.text(ls[:starts[0]] + seg), render_kvn.text(ls[:starts[i]] + seg + ls[starts[i + 1]:])

    def pick(self, t, order):
        t2 = copy.copy(t)
        t2["body"] = dict(t["body"], segment=[copy.deepcopy(t["body"]["segment"][i]) for i in order])
        if t["_c"] == "Cdm":
            for i, s in enumerate(t2["body"]["segment"]):
                s["metadata"]["object"] = ["OBJECT1", "OBJECT2"][i]
        return t2

    def check(self, c):
        t, fmt, order = c["tree"], c["fmt"], c["order"]
        segs = lambda o: o.body.segment
        whole = segs(read(render(t, fmt)))
        if t["_c"] == "Cdm":
            other = segs(read(render(self.pick(t, order), fmt)))
            for i, j in enumerate(order):
                for part in ("metadata", "data"):
                    x, y = flat(getattr(other[i], part)), flat(getattr(whole[j], part))
                    x.pop("/object", None), y.pop("/object", None)
                    if x != y:
                        raise Fail(f"the {part} of CDM object {i + 1} reads differently when the two objects change places: {delta(y, x)}")
            return
        n = len(t["body"]["segment"])
        if len(whole) != n:
            raise Fail(f"{n} segments in the file, {len(whole)} read")
        alone = [segs(read(render(self.pick(t, [i]), fmt))) for i in range(n)]
        for i in range(n):
            if len(alone[i]) != 1 or not (alone[i][0] == whole[i]):
                raise Fail(f"segment {i} reads differently among the others than alone: {delta(flat(alone[i]), flat([whole[i]]))}")
        other = segs(read(render(self.pick(t, order), fmt)))
        if len(other) != len(order) or not all(x == alone[j][0] for x, j in zip(other, order)):
            raise Fail(f"segments read differently in the order {order}: {delta(flat([alone[j][0] for j in order]), flat(other))}")
        if fmt == "kvn":
            full = parse_kvn.parse(write(build(t), "kvn"))
            parts = [parse_kvn.parse(write(build(self.pick(t, [i])), "kvn")) for i in range(n)]
            k = next(i for i, l in enumerate(parts[0]) if l == ("word", "META_START"))
            want = parts[0][:k] + [l for p in parts for l in p[k:]]
            if full != want:
                raise Fail("the segments written together are not the segments written one by one")
        if c.get("drop") and c["drop"][0] < n:
            i = c["drop"][0]
            one, all_ = self.lacking(t, *c["drop"])
            try:
                a = segs(R().NdmIo().from_string(one))
            except Exception as e:
                rejects(f"the segment {i}, refused alone ({type(e).__name__}: {str(e)[:80]}), in a file with others", lambda: R().NdmIo().from_string(all_))
            else:
                b = segs(api(f"reading the segment {i} that lacks a line, fine alone, among others", lambda: R().NdmIo().from_string(all_)))
                if len(a) != 1 or len(b) != n or not (b[i] == a[0]) or any(not (x == y[0]) for k, (x, y) in enumerate(zip(b, alone)) if k != i):
                    raise Fail(f"segment {i} that lacks a line (or has it twice) reads differently alone and among others: {delta(flat(a[0]), flat(b[i] if i < len(b) else None))}")

    def nontrivial(self, c):
        return len({json.dumps(s) for s in c["tree"]["body"]["segment"]}) >= 2

    def labels(self, c):
        return ["fmt:" + c["fmt"]] + tree_labels(c["tree"])

    def shrink(self, c):
        n = len(c["tree"]["body"]["segment"])
        for t in shrinkers.trees(c["tree"]):
            if t is not None:
                m = len(t["body"]["segment"])
                yield dict(c, tree=t, order=[i for i in c["order"] if i < m] or [0])

    def show(self, c):
        return f"order {c['order']} {c.get('drop')}\n" + render(c["tree"], c["fmt"])


def delta(a, b, limit=3):
    return [f"{k}: {a.get(k)!r} -> {b.get(k)!r}" for k in list(dict.fromkeys(list(a) + list(b))) if a.get(k) != b.get(k)][:limit]


# ---------------------------------------------------------------- C23
NUMBER = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([Ee][-+]?\d+)?$")
EPOCH = re.compile(r"\d{4}-\d{2,3}(-\d{2})?T\d{2}:\d{2}:\d{2}(\.\d*)?Z?$")


def bump(tok, rng):
    """Another token of the same form: one digit changed."""
    at = [i for i, ch in enumerate(tok) if ch.isdigit()]
    if EPOCH.match(tok):
        at = [i for i in at if i >= tok.index("T") + 4] or at[-1:]
    i = rng.choice(at)
    d = tok[i]
    new = rng.choice([x for x in ("012345" if EPOCH.match(tok) else "0123456789") if x != d])
    return tok[:i] + new + tok[i + 1:]


def kvn_sites(text):
    """(line, start, end, token) of the numbers and epochs of a KVN text that may be edited."""
    out = []
    for n, line in enumerate(text.split("\n")):
        if line.strip().startswith("COMMENT") or line.startswith("CCSDS_"):
            continue
        key, eq, val = line.partition("=")
        if eq and key.strip() in ("EULER_ROT_SEQ", "PATH", "PATH_1", "PATH_2", "CREATION_DATE_X"):
            continue
        start = len(key) + 1 if eq else 0
        for m in re.finditer(r"\S+", line[start:]):
            tok = m.group()
            if NUMBER.match(tok) or EPOCH.match(tok):
                rest = (line[start:start + m.start()] + line[start + m.end():]).strip()
                if eq and rest and not rest.startswith("[") and not EPOCH.match(tok) and not (len(rest.split()) == 1 and EPOCH.match(rest.split()[0])):
                    continue                      # a digit inside a free text
                out.append((n, start + m.start(), start + m.end(), tok))
    return out


class C23(Prop):
    id, quick, thorough = "C23", 3500, 80000
    rule = "the edited value lies in a message of at least 15 values"

    def gen(self, rng, i):
        fmt = rng.choice(FMTS)
        if i % 4 == 0:
            return {"kind": "corpus", "file": rng.randrange(len(corpus())), "edits": [rng.randrange(10 ** 9) for _ in range(rng.choice([1, 1, 2, 4]))]}
        t = gen.sweep(rng, fmt, schema.ROOTS, i * 3)
        sites = []
        for path, f in leaves_of(t):
            if f.get("fixed") is not None or f["py"] in ("parameter", "angle", "rate", "object", "quaternion_type", "euler_rot_seq", "attitude_type"):
                continue
            if f["py"] == "units" or (f["py"] == "comment" and fmt == "kvn"):
                continue
            sites.append((path, f))
        groups = {}                               # every kind of value as likely as the many data tokens
        for s in sites:
            groups.setdefault((s[1]["py"], s[1]["type"]), []).append(s)
        path, f = rng.choice(groups[rng.choice(sorted(groups))])
        prof = gen.Profile(rng, fmt)
        old = at(t, path)
        for _ in range(20):
            new = gen.leaf(rng, prof, dict(f, py="epoch" if f["py"] == "epoch" else "")) if not (f["type"] == "str" and f.get("py") == "comment") else gen.comment_lex(rng, prof)
            if not same(f, old, new):
                break
        drop = False
        if rng.random() < 0.25 and not f.get("list") and not f.get("required") and f["kind"] == "element" \
                and at(t, path[:-1])["_c"] not in ("TrackingDataObservationType",):
            rest = copy.deepcopy(t)
            del at(rest, path[:-1])[path[-1]]
            # in KVN a block is there by its values: the last one takes it along
            drop = fmt != "kvn" or all(gen.has_value(at(rest, path[:n])) for n in range(1, len(path)) if isinstance(at(rest, path[:n]), dict))
        return {"kind": "tree", "fmt": fmt, "tree": t, "path": list(path), "new": None if drop else new}

    def texts(self, c):
        """(format, before, after, number of values changed, new values)"""
        if c["kind"] == "corpus":
            name, fmt, text = corpus()[c["file"]]
            news = []
            if fmt == "kvn":
                lines, used = text.split("\n"), set()
                for e in c["edits"]:
                    rng = random.Random(e)
                    sites = [s for s in kvn_sites("\n".join(lines)) if s[0] not in used]
                    n, a, b, tok = rng.choice(sites)
                    used.add(n)
                    new = bump(tok, rng)
                    if same_token(tok, new):
                        continue
                    lines[n] = lines[n][:a] + new + lines[n][b:]
                    news.append(new)
                return fmt, text, "\n".join(lines), news
            after, used = text, set()
            for e in c["edits"]:
                rng = random.Random(e)
                sites = [m for m in re.finditer(r">([^<>]+)</(\w+)>", after) if m.start() not in used and
                         (NUMBER.match(m.group(1).strip()) or EPOCH.match(m.group(1).strip())) and m.group(2) not in ("EULER_ROT_SEQ",)]
                m = rng.choice(sites)
                tok = m.group(1).strip()
                new = bump(tok, rng)
                if same_token(tok, new):
                    continue
                used.add(m.start())
                after = after[:m.start(1)] + m.group(1).replace(tok, new) + after[m.end(1):]
                news.append(new)
            return fmt, text, after, news
        t2 = copy.deepcopy(c["tree"])
        p = c["path"]
        if c["new"] is None:
            del at(t2, p[:-1])[p[-1]]
        else:
            at(t2, p[:-1])[p[-1]] = c["new"]
        return c["fmt"], render(c["tree"], c["fmt"]), render(t2, c["fmt"]), [c["new"]]

    def check(self, c):
        fmt, before, after, news = self.texts(c)
        a, b = read(before), read(after, "reading the edited message")
        x, y = flat(a), flat(b)
        changed = [k for k in list(dict.fromkeys(list(x) + list(y))) if x.get(k) != y.get(k)]
        changed_values = sorted(str(norm(y.get(k))) for k in changed)
        want = sorted(str(norm(v)) for v in news)
        if news == [None]:
            ok = len(changed) == 1 and changed[0] in x and changed[0] not in y
        else:
            ok = changed_values == want
        if not ok:
            raise Fail(f"{len(news)} value(s) edited to {news}, but these changed: {delta(x, y, 5)}")
        if news and a == b:
            raise Fail("objects with different values compare equal")

    def nontrivial(self, c):
        return c["kind"] == "corpus" or schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        if c["kind"] == "corpus":
            return ["corpus", f"edits:{len(c['edits'])}"]
        return ["fmt:" + c["fmt"], "type:" + c["tree"]["_c"], "edit:" + ("drop" if c["new"] is None else "change")]

    def shrink(self, c):
        if c["kind"] == "corpus":
            for i in range(len(c["edits"])):
                if len(c["edits"]) > 1:
                    yield dict(c, edits=c["edits"][:i] + c["edits"][i + 1:])
            return
        keep = at(c["tree"], c["path"])
        def ok(t):
            try:
                return gen.valid(t) and at(t, c["path"]) == keep
            except (KeyError, IndexError, TypeError):
                return False
        yield from shrinkers.case(c, ok=ok)

    def show(self, c):
        import difflib
        _, a, b, _ = self.texts(c)
        return "\n".join(difflib.unified_diff(a.split("\n"), b.split("\n"), "before", "after", lineterm="", n=400))


def same(f, a, b):
    if f["type"] in ("Decimal", "int"):
        return Decimal(a) == Decimal(b)
    return a == b


def same_token(a, b):
    return (NUMBER.match(a) and NUMBER.match(b) and Decimal(a) == Decimal(b)) or a == b


def norm(v):
    """Numbers by value, the rest by text."""
    s = str(v)
    if NUMBER.match(s):
        try:
            return Decimal(s).normalize() if Decimal(s) else Decimal(0)
        except InvalidOperation:
            pass
    return s


# ---------------------------------------------------------------- C24
def elements(text):
    """Element tree of a well-formed text, whether namespace prefixes are declared or not."""
    p, b = expat.ParserCreate(), ET.TreeBuilder()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = b.start, b.end, b.data
    p.Parse(text, True)
    return b.close()


class C24(Prop):
    id, quick, thorough = "C24", 4000, 150000
    rule = "the damaged text differs from the valid one"

    def gen(self, rng, i):
        fmt = rng.choice(["kvn", "kvn", "kvn", "xml"])
        if rng.random() < 0.3:
            src = {"file": rng.choice([j for j, x in enumerate(corpus()) if x[1] == fmt])}
        else:
            src = {"tree": small(rng, fmt, p_opt=rng.choice([0.0, 0.3, 1.0]))}
        muts = [[rng.choice(["del", "dup", "move", "cut", "chop", "sub", "char", "num", "join", "eq", "word", "noise", "head"]), rng.randrange(10 ** 9)]
                for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]
        c = {"fmt": fmt, "src": src, "muts": muts}
        if rng.random() < 0.1:                    # bytes that no UTF-8 text has
            c["bytes"] = [rng.randrange(10 ** 6), rng.choice(["ff", "c0", "80", "e28", "fe", "c3", "f8", "eda080", "fffe"])]
        return c

    def undecodable(self, c):
        b = self.source(c).encode("utf-8")
        j, bad = c["bytes"]
        j %= len(b) + 1
        b = b[:j] + bytes.fromhex(bad[:len(bad) // 2 * 2]) + b[j:]
        try:
            b.decode("utf-8")
            return None
        except UnicodeDecodeError:
            return b

    def check_bytes(self, c):
        b = self.undecodable(c)
        if b is None:
            return
        r = R()
        with open("damaged", "wb") as f:
            f.write(b)
        for io in (r.NdmIo, r.NdmKvnIo if c["fmt"] == "kvn" else r.NdmXmlIo):
            for how, call in (("from_bytes", lambda: io().from_bytes(b)), ("from_path", lambda: io().from_path(Path("damaged")))):
                try:
                    o = call()
                except Exception:
                    continue
                raise Fail(f"{io.__name__}.{how}: bytes that are not UTF-8 were read as {str(o)[:200]}")

    def source(self, c):
        return corpus()[c["src"]["file"]][2] if "file" in c["src"] else render(c["src"]["tree"], c["fmt"])

    def text(self, c):
        s = self.source(c)
        for kind, seed in c["muts"]:
            rng = random.Random(seed)
            ls = s.split("\n")
            j = rng.randrange(len(ls))
            if kind == "del":
                k = rng.choice([1, 1, 2, 5])
                del ls[j:j + k]
            elif kind == "dup":
                ls.insert(rng.randrange(len(ls) + 1), ls[j])
            elif kind == "move":
                ls.insert(rng.randrange(len(ls)), ls.pop(j))
            elif kind == "cut":
                ls = ls[:j + 1]
            elif kind == "chop":
                ls[j] = ls[j][:rng.randrange(len(ls[j]) + 1)]
            elif kind == "sub":
                a, b = sorted((j, rng.randrange(len(ls))))
                ls[a], ls[b] = ls[b], ls[a]
            elif kind == "char" and ls[j]:
                p = rng.randrange(len(ls[j]))
                ls[j] = ls[j][:p] + rng.choice(["", "=", "[", "]", " ", "\t", "<", ">", "&", "\x00", "é", "A", "0", "\"", "\r", "\x0b", ".", "-"]) + ls[j][p + 1:]
            elif kind == "num":
                ls[j] = re.sub(r"\d+(\.\d+)?", lambda m: rng.choice([m.group(), m.group(), "1e5", "NaN", "x", "", "-0", "1_0", "1,5", "inf", "0x1"]), ls[j])
            elif kind == "join" and j + 1 < len(ls):
                ls[j:j + 2] = [ls[j] + rng.choice(["", " "]) + ls[j + 1]]
            elif kind == "eq":
                ls[j] = ls[j].replace("=", rng.choice(["", " ", "==", "= =", ":"]), 1)
            elif kind == "word":
                ls.insert(j, rng.choice(["META_START", "META_STOP", "DATA_START", "DATA_STOP", "COVARIANCE_START", "COVARIANCE_STOP", "COMMENT", "COMMENT x",
                                         "", "EPOCH = 2000-01-01T00:00:00", "1 2 3", "X = 1 [km]", "FOO", "USER_DEFINED_ = 1", "<!-- -- -->", "<FOO/>", "</body>"]))
            elif kind == "head":                  # where the text says what it is
                h = next((n for n, l in enumerate(ls) if "VERS" in l or re.search("<[a-z]{3}[ >]", l)), 0)
                a = rng.choice(["VERS", "CCSDS", "_", "<", " ", ">", "=", "id", "version"] + [x.lower() for x in schema.ROOTS])
                b = rng.choice([a + "ION", a + "X", "X" + a, a.lower(), a.upper(), "", a * 2, a[:-1], a + "_", a + "2", "opm", "OEM", a + a[-1:]])
                ls[h] = ls[h].replace(a, b, 1) if rng.random() < 0.7 else re.sub("[A-Z]{3}(?=_VERS)", rng.choice(schema.ROOTS).upper(), ls[h])
            elif kind == "noise":
                ls.insert(j, "".join(rng.choice(gen.ASCII + "   []\t") for _ in range(rng.randrange(1, 30))))
            s = "\n".join(ls)
        return s

    def check(self, c):
        if "bytes" in c:
            return self.check_bytes(c)
        s = self.text(c)
        r = R()
        try:
            o = r.NdmIo().from_string(s)
        except Exception:
            o = None                              # refused: fine
        if o is not None:
            head = s.strip()
            m = re.match(r"CCSDS_([A-Z]+)_VERS\s*=", head)
            if head.startswith("<"):
                try:
                    root = elements(head)
                except (expat.ExpatError, UnicodeEncodeError):
                    raise Fail(f"XML that is not well-formed was read as {type(o).__name__}")
                kinds = [root.tag] if root.tag != "ndm" else [e.tag for e in root if e.tag in {x.lower() for x in schema.ROOTS}]
                kinds = ["ndm"] if root.tag == "ndm" and len(kinds) != 1 else kinds
            else:
                if not m:
                    raise Fail(f"a KVN text that names no message type was read as {type(o).__name__}")
                kinds = [m.group(1).lower()]
                root = None
            if [type(o).__name__.lower()] != kinds:
                raise Fail(f"a text that says {kinds} was read as {type(o).__name__}")
            self.invented(o, s, root)
        # whatever happened leaves no trace in the library
        if c.get("src", {}).get("tree"):
            t = c["src"]["tree"]
            must_equal(t, read(render(t, c["fmt"])), "the undamaged message read after the damaged one", kvn=c["fmt"] == "kvn")

    def invented(self, o, s, root):
        if root is not None:
            words = set()
            for e in root.iter():
                words.add("".join(x for x in [e.text or ""] + [k.tail or "" for k in e]).strip())
                words.add((e.text or "").strip())
                words.update(v.strip() for v in e.attrib.values())
            text = None
        else:
            words = set(re.split(r"[\s=\[\]]+", s))
            text = re.sub(r"[\s\[\]]", "", s).upper()
        numbers = {Decimal(0)} if False else set()
        for w in words:
            try:
                d = Decimal(w)
                numbers.add(d if not d.is_nan() else "NaN")
            except (InvalidOperation, ValueError):
                pass
        for path, v in flat(o).items():
            leaf = path.rsplit("/", 1)[1]
            if leaf in ("_type", "id", "version") and path.count("/") == 1 or leaf == "_type":
                continue
            if re.fullmatch(r"/(aem|apm|cdm|oem|omm|opm|rdm|tdm)\[\d+\]/(id|version)", path):
                continue
            if leaf in ("angle", "rate") and root is None and re.fullmatch("[XYZ]_(ANGLE|RATE)", str(v)):
                continue                          # the axis, from EULER_ROT_SEQ
            if isinstance(v, bool):
                raise Fail(f"{path} = {v!r} is not in the text")
            if isinstance(v, (Decimal, int, float)):
                v = Decimal(v)
                ok = ("NaN" if v.is_nan() else v) in numbers
            elif isinstance(v, str):
                if text is not None:
                    ok = re.sub(r"[\s\[\]]", "", v).upper() in text
                else:
                    ok = not v.strip() or any(" ".join(v.split()) == " ".join(w.split()) for w in words) or v.upper() in {w.upper() for w in words}
            else:
                ok = False
            if not ok:
                raise Fail(f"{path} = {v!r} was read, but the text does not contain it")

    def nontrivial(self, c):
        return self.text(c) != self.source(c)

    def labels(self, c):
        s = self.text(c)
        try:
            R().NdmIo().from_string(s)
            out = ["outcome:read"]
        except Exception as e:
            out = ["outcome:refused"]
        return out + ["fmt:" + c["fmt"]] + ["damage:" + m[0] for m in c["muts"]]

    def shrink(self, c):
        for i in range(len(c["muts"])):
            if len(c["muts"]) > 1:
                yield dict(c, muts=c["muts"][:i] + c["muts"][i + 1:])
        if "tree" in c["src"]:
            for t in shrinkers.trees(c["src"]["tree"]):
                if t is not None:
                    yield dict(c, src={"tree": t})

    def show(self, c):
        return self.text(c)


# ---------------------------------------------------------------- C25
BIG = {"Oem": ["state_vector", "covariance_matrix", "segment", "comment"], "Aem": ["attitude_state", "segment", "comment"],
       "Tdm": ["observation", "segment", "comment"], "Opm": ["user_defined", "comment", "maneuver_parameters"],
       "Omm": ["user_defined", "comment"], "Rdm": ["user_defined", "comment"], "Apm": ["comment", "maneuver_parameters"], "Cdm": ["comment"]}


class C25(Prop):
    id, quick, thorough = "C25", 320, 6000
    rule = "at least 40 repeated items, or one text of at least 40 characters"

    def gen(self, rng, i):
        fmt = rng.choice(FMTS)
        combos = [(r, w) for r in BIG for w in BIG[r]]
        root, what = combos[i % len(combos)]
        t = gen.message(rng, fmt, root, max_list=2, rows=4, p_opt=0.5)
        n = rng.choice([50, 100, 101, 256, 300])
        if what == "segment":
            n = rng.choice([20, 40, 60])
        if i < 2 * len(combos):                   # each kind of list in each form, and really long
            fmt = FMTS[i // len(combos)]
            t = gen.message(rng, fmt, root, max_list=1, rows=3, p_opt=rng.choice([0.2, 0.5]))
            slow = fmt == "kvn" and what in ("segment", "attitude_state")
            n = rng.choice([1100, 2100] if slow else [2100, 4200, 10100])
            if what == "segment":
                n = rng.choice([140, 270] if slow else [270, 1030])
        elif i < 2 * len(combos) + 8 or rng.random() < 0.1:   # one really long text
            ls = [list(p) for p, f in leaves_of(t) if f["type"] == "str" and f.get("fixed") is None and not f.get("pattern")]
            n = rng.choice([10 ** 7 + 5, 11 * 10 ** 6, 14 * 10 ** 6]) if i < 2 * len(combos) + 8 else rng.choice([9000, 66000, 300000, 1100000])
            return {"fmt": fmt, "tree": t, "what": "text", "path": rng.choice(ls), "n": n, "seed": rng.randrange(10 ** 6)}
        return {"fmt": fmt, "tree": t, "what": what, "n": n, "seed": rng.randrange(10 ** 6)}

    def expand(self, c):
        t, w, n = copy.deepcopy(c["tree"]), c["what"], c["n"]
        if w == "text":
            piece = ["ABCD 1234 ", "WXYZ\u00e94321"][c["seed"] % 2]
            if c["path"][-1] == "parameter":      # KVN does not keep the case of names
                piece = "ABCD-1234."
            at(t, c["path"][:-1])[c["path"][-1]] = "S" + piece * (n // len(piece)) + "E"
            return t
        rng = random.Random(c["seed"])
        epoch = lambda i: "20%02d-%03dT%02d:%02d:%02d" % (i % 90 + 10, i % 300 + 1, i % 24, i % 60, i * 7 % 60)
        b = t["body"]
        seg = b["segment"][-1] if isinstance(b["segment"], list) else b["segment"]
        d = seg["data"]
        prof = gen.Profile(rng, c["fmt"])
        prof.max_list = 1
        if w == "segment":
            base = b["segment"]
            b["segment"] = [copy.deepcopy(base[i % len(base)]) for i in range(n)]
            for i, s in enumerate(b["segment"]):
                for k in ("start_time", "stop_time"):
                    if k in s["metadata"]:
                        s["metadata"][k] = epoch(i)
        elif w == "user_defined":
            d["user_defined_parameters"] = {"_c": "UserDefinedType", "user_defined": [
                {"_c": "UserDefinedParameterType", "value": "V%d" % (i * 7 % n), "parameter": "P%d" % i} for i in range(n)]}
        elif w == "comment":
            seg["metadata"]["comment"] = ["C %d" % (i * 7 % n) for i in range(n)]
            t["header"]["comment"] = ["H %d" % i for i in range(n // 2)]
            if "attitude_state" in d or "state_vector" in d or "observation" in d:
                d["comment"] = ["D %d" % i for i in range(n)]
                gen.reorder(d["_c"], d)
            gen.reorder(t["header"]["_c"], t["header"])
            gen.reorder(seg["metadata"]["_c"], seg["metadata"])
        elif w == "maneuver_parameters":
            d[w] = [gen.node(rng, prof, {"Opm": "ManeuverParametersType", "Apm": "AttManeuverParametersType"}.get(t["_c"], "")) for _ in range(n // 4)] \
                if w in schema.FIELD[d["_c"]] and schema.FIELD[d["_c"]][w].get("list") else d.get(w)
            if d[w] is None:
                del d[w]
        else:
            base = d.get(w) or [gen.node(rng, prof, schema.FIELD[d["_c"]][w]["type"])]
            d[w] = [copy.deepcopy(base[i % len(base)]) for i in range(n if w != "covariance_matrix" else n // 5)]
            for i, row in enumerate(d[w]):
                x = row
                if "epoch" not in row:
                    (x,) = [v for k, v in row.items() if k != "_c"]
                x["epoch"] = epoch(i)
            if c["fmt"] == "kvn":
                gen.strip_units(d)
        gen.reorder(d["_c"], d)
        return t

    def check(self, c):
        try:
            self.check_all(c)
        except Fail as e:
            raise Fail(str(e) if len(str(e)) < 3000 else str(e)[:1500] + " ... " + str(e)[-500:])

    def check_all(self, c):
        t, kvn = self.expand(c), c["fmt"] == "kvn"
        must_equal(t, read(render(t, c["fmt"])), f"{c['n']} x {c['what']} read", kvn=kvn)
        o = build(t)
        s = write(o, c["fmt"])
        must_say(t, s, c["fmt"], f"{c['n']} x {c['what']} written")
        must_equal(t, read(s), f"{c['n']} x {c['what']} after write and read", kvn=kvn)

    def nontrivial(self, c):
        return c["n"] >= 40

    def labels(self, c):
        return ["fmt:" + c["fmt"], c["tree"]["_c"] + ":" + c["what"], f"n:{c['n']}"]

    def shrink(self, c):
        for n in (1, 2, 4, 8, 16, c["n"] // 2, c["n"] - 1):
            if 0 < n < c["n"]:
                yield dict(c, n=n)
        for t in shrinkers.trees(c["tree"]):
            try:
                if t is not None and json.dumps(t) != json.dumps(c["tree"]) and (c["what"] != "text" or at(t, c["path"]) is not None):
                    yield dict(c, tree=t)
            except (KeyError, IndexError, TypeError):
                pass

    def show(self, c):
        return f"{c['n']} x {c['what']}\n" + render(c["tree"], c["fmt"])


# ---------------------------------------------------------------- C26
class C26(Prop):
    id, quick, thorough = "C26", 6000, 60000
    rule = "at least one value of a message with at least 15 values changed"

    def gen(self, rng, i):
        source = rng.choice(["kvn", "xml", "built"])
        t = gen.sweep(rng, "kvn", schema.ROOTS, i * 3, data_units=False)
        if source == "kvn":                       # KVN does not say which block a comment belongs to
            t = without_comments(t)
        edits, cur = [], copy.deepcopy(t)
        prof = gen.Profile(rng, "kvn")
        prof.data_units, prof.max_list, prof.rows = False, 2, 2
        for _ in range(rng.choice([1, 2, 4])):
            for _ in range(8):
                e = self.edit(rng, prof, cur)
                if e is None:
                    continue
                nxt = copy.deepcopy(cur)
                apply_tree(nxt, e)
                probe = copy.deepcopy(nxt)
                gen.prune(probe)
                if gen.valid(nxt) and probe == nxt:
                    cur = nxt
                    edits.append(e)
                    break
        return {"tree": t, "edits": edits, "source": source, "out": rng.choice(FMTS)}

    def edit(self, rng, prof, t):
        ns = [(p, n) for p, _, n in schema.walk(t)]
        ns = [x for x in ns if not schema.is_valued(x[1]["_c"])] if rng.random() < 0.7 else ns
        p, n = rng.choice(ns)
        if n["_c"] in ("CdmBody",):
            return None
        f = rng.choice(schema.CLASSES[n["_c"]])
        if f.get("fixed") is not None or f["py"] in ("parameter", "angle", "rate", "object", "comment"):
            return None
        if f["py"] == "units" and any(k in ("state_vector", "attitude_state", "observation", "covariance_matrix") for k in p) and t["_c"] in SEGMENTED:
            return None                           # no units in these KVN data lines
        ctx = {"nounits": True} if t["_c"] in SEGMENTED else None
        cls = f["type"] in schema.CLASSES
        new = lambda: gen.node(rng, prof, f["type"], ctx) if cls else gen.leaf(rng, prof, f)
        if f.get("list"):
            v = n.get(f["py"]) or []
            k = rng.choice(["append", "insert", "pop", "set", "reverse"])
            if f["py"] in ("attitude_state",) or n["_c"] == "AemBody" and k in ("append", "insert", "set") or n["_c"] == "UserDefinedType":
                k = rng.choice(["pop", "reverse"])
            if k in ("pop", "set", "reverse") and not v:
                return None
            e = {"p": list(p), "f": f["py"], "k": k}
            if k in ("insert", "set", "pop"):
                e["i"] = rng.randrange(len(v) + (k == "insert"))
            if k in ("append", "insert", "set"):
                e["v"] = new()
                if isinstance(e["v"], dict):
                    gen.prune(e["v"])
            return e
        if rng.random() < 0.25 and not f.get("required") and f["kind"] != "text":
            return {"p": list(p), "f": f["py"], "k": "none"} if n.get(f["py"]) is not None else None
        v = new()
        if isinstance(v, dict):
            gen.prune(v)
        return {"p": list(p), "f": f["py"], "k": "assign", "v": v}

    def after(self, c):
        t = copy.deepcopy(c["tree"])
        for e in c["edits"]:
            apply_tree(t, e)
        return t

    def check(self, c):
        src = c["source"]
        o = build(c["tree"]) if src == "built" else read(render(c["tree"], src))
        write(o, c["out"])                        # a write before the edits must not matter
        for e in c["edits"]:
            n = at(o, e["p"]) if e["p"] else o
            if e["k"] == "none":
                setattr(n, e["f"], None)
            elif e["k"] == "assign":
                setattr(n, e["f"], self.value(n, c, e))
            else:
                v = getattr(n, e["f"])
                if e["k"] == "append":
                    v.append(self.value(n, c, e))
                elif e["k"] == "insert":
                    v.insert(e["i"], self.value(n, c, e))
                elif e["k"] == "set":
                    v[e["i"]] = self.value(n, c, e)
                elif e["k"] == "pop":
                    v.pop(e["i"])
                else:
                    v.reverse()
        t = self.after(c)
        must_equal(t, o, f"the object (from {src}) after the edits", kvn=src == "kvn")
        s = write(o, c["out"])
        what = f"the {c['out'].upper()} written after editing the object read from {src}"
        if c["out"] == "kvn" or src != "kvn":
            must_say(t, s, c["out"], what)
        else:
            must_equal(t, read(s), what, kvn=True)

    def value(self, n, c, e):
        from . import build as b
        f = schema.FIELD[type(n).__name__.replace("NdmObject", "")][e["f"]]
        return build(e["v"]) if isinstance(e["v"], dict) else b.leaf(e["v"], f["type"], R().models)

    def nontrivial(self, c):
        return bool(c["edits"]) and schema.count_leaves(c["tree"]) >= 15

    def labels(self, c):
        return ["type:" + c["tree"]["_c"], "source:" + c["source"], "out:" + c["out"]] + ["edit:" + e["k"] for e in c["edits"]] + [f"edits:{len(c['edits'])}"]

    def shrink(self, c):
        def ok(x):
            try:
                t = copy.deepcopy(x["tree"])
                for e in x["edits"]:
                    apply_tree(t, e)
                    p = copy.deepcopy(t)
                    gen.prune(p)
                    if not gen.valid(t) or p != t:
                        return False
                return True
            except (KeyError, IndexError, TypeError, AttributeError):
                return False
        for i in range(len(c["edits"])):
            x = dict(c, edits=c["edits"][:i] + c["edits"][i + 1:])
            if ok(x):
                yield x
        for t in shrinkers.trees(c["tree"]):
            if t is not None:
                x = dict(c, tree=t)
                if ok(x):
                    yield x

    def show(self, c):
        return f"read from {c['source']}, edits {json.dumps(c['edits'], ensure_ascii=False)}, written as {c['out']}\n" + render(c["tree"], "kvn")


def apply_tree(t, e):
    n = at(t, e["p"])
    k = e["k"]
    if k == "none":
        n.pop(e["f"])
    elif k == "assign":
        n[e["f"]] = copy.deepcopy(e["v"])
    else:
        v = n.setdefault(e["f"], [])
        if k == "append":
            v.append(copy.deepcopy(e["v"]))
        elif k == "insert":
            v.insert(e["i"], copy.deepcopy(e["v"]))
        elif k == "set":
            v[e["i"]] = copy.deepcopy(e["v"])
        elif k == "pop":
            v.pop(e["i"])
            if not v:
                del n[e["f"]]
        else:
            v.reverse()
    gen.reorder(n["_c"], n)


PROPS = [C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26]
