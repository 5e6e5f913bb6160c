"""Runs in a child process of its own (C33): python -m ndmv.envchild IN OUT.  Reads and writes the texts of IN under the
environment it was started in, and says what came out."""
import decimal
import json
import sys


def outcome(text, low):
    """[what was read, KVN, XML, what was read from a file, the KVN file, the XML file], each as plain data."""
    first = one(text, low, False)
    with open("message.txt", "wb") as f:
        f.write(text.encode("utf-8"))
    return first + one("message.txt", low, True)


def one(text, low, files):
    from . import repo
    from .base import flat
    io = (repo.NdmKvnIo if low == "kvn" else repo.NdmXmlIo)() if low else repo.NdmIo()
    try:
        o = io.from_path(text) if files else io.from_string(text)
    except Exception:
        return ["refused"] * 3
    out = [{k: [type(v).__name__, str(v)] for k, v in flat(o).items()}]
    for f in (repo.NDMFileFormats.KVN, repo.NDMFileFormats.XML):
        try:
            if files:
                repo.NdmIo().to_file(o, f, "written.txt")
                with open("written.txt", "rb") as h:
                    out.append(h.read().decode("utf-8", "backslashreplace"))
            else:
                out.append(repo.NdmIo().to_string(o, f))
        except Exception:
            out.append("refused")
    return out


def main():
    job = json.load(open(sys.argv[1], encoding="utf-8"))
    c = job["context"]
    if c:
        ctx = decimal.Context(prec=c["prec"], rounding=c["rounding"], Emin=-c["emax"], Emax=c["emax"], capitals=c["capitals"], clamp=c["clamp"])
        decimal.setcontext(ctx)
        decimal.DefaultContext.prec = c["prec"]
    res = [outcome(t, low) for t, low in job["texts"]]
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
