"""Sequences and configuration text shared by the drivers and the specifications."""

SAFE, UNI, ISO, CP = {"b": "safe"}, {"b": "unicode"}, {"b": "iso8859_1"}, {"b": "cp1252"}


def f_safe(t=SAFE): return {"k": "safe", "t": t}
def f_iso(t=ISO): return {"k": "iso8859_1", "t": t}
def f_utf(t=UNI): return {"k": "utf_8", "t": t}
def f_uncgi(): return {"k": "uncgi"}
def f_lower(): return {"k": "lower"}
def f_wipe(rt=True): return {"k": "wipeup", "rt": rt}
def f_max(n=0): return {"k": "max_length", "n": n}


def table(rows, default=None):
    """rows: dict value -> bytes; default: bytes or None"""
    return {"b": "", "rows": [{"k": k, "v": list(v)} for k, v in sorted(rows.items())],
            "hasdef": bool(default), "def": list(default or b"")}


DEFAULT = [f_safe(), f_wipe()]
ISOSEQ = [f_iso()] + DEFAULT
LEGACY = [f_iso(CP), f_iso()] + DEFAULT
UTF8 = [f_utf()] + DEFAULT
UNCGI = [f_uncgi()] + DEFAULT
LOWER = [f_safe(), f_lower(), f_wipe()]
SHIPPED = {"default": DEFAULT, "iso8859_1": ISOSEQ, "iso8859_1-legacy": LEGACY, "utf_8": UTF8,
           "uncgi": UNCGI, "lower": LOWER}


def table_text(t):
    """A table file with exactly these rows (values must not contain newlines or both kinds of quotes)."""
    out = []
    if t["hasdef"]:
        out.append(b"default " + quote(bytes(t["def"])))
    out.append(b"start")
    for r in t["rows"]:
        out.append(b"0x%04x %s" % (r["k"], quote(bytes(r["v"]))))
    out.append(b"end")
    return b"\n".join(out) + b"\n"


def quote(v):
    assert b"\n" not in v
    if b'"' in v:
        assert b"'" not in v
        return b"'" + v + b"'"
    return b'"' + v + b'"'


class Book:
    """A numbered list of sequences, with the config text and table files that express it."""

    def __init__(self):
        self.seqs = []
        self.tables = []   # (name, text)
        self.memo = {}

    def add(self, filters):
        k = repr(filters)
        if k not in self.memo:
            self.seqs.append(filters)
            self.memo[k] = len(self.seqs)
        return self.memo[k]

    def table_file(self, t):
        text = table_text(t)
        for n, x in self.tables:
            if x == text:
                return n
        i = len(self.tables)   # tables of one name in several directories, and of names alike
        n = (b"", b"p/", b"q/", b"p/q/", b"q/p/", b"P/")[i % 6] + (b"t%d.tbl", b"T%d.tbl", b"t%d.TBL", b"t%d")[i // 6 % 4] % (i // 24)
        self.tables.append((n, text))
        return n

    def filter_text(self, f, dir):
        k = f["k"].encode()
        if f["k"] in ("safe", "iso8859_1", "utf_8"):
            t = f["t"]
            if t["b"]:
                return k + b' { builtin "' + t["b"].encode() + b'"; };'
            return k + b' { filename "' + dir + b"/" + self.table_file(t) + b'"; };'
        if f["k"] == "wipeup":
            return b"wipeup { remove_trailing; };" if f["rt"] else b"wipeup;"
        if f["k"] == "max_length":
            return b"max_length;" if f["n"] == 0 else b"max_length { length %d; };" % f["n"]
        return k + b";"

    def config(self, dir, ign=()):
        out = []
        for i, fs in enumerate(self.seqs):
            out.append(b'sequence "s%d" {\n\t' % (i + 1) + b"\n\t".join(self.filter_text(f, dir) for f in fs) + b"\n};\n")
        if ign:
            out.append(b"ignore {\n" + b"".join(b'\tfilename "' + n + b'";\n' for n in ign) + b"};\n")
        return b"\n".join(out)

    def records(self):
        return [{"f": fs} for fs in self.seqs]
