"""Translation tables: generating table files, loading them with the real program, probing the result."""
import os, re, tempfile
import common
from common import log

LOCALES = ["C", "C.utf8", "en_US.utf8", "de_DE.utf8", "de_DE.UTF-8", "en_US.UTF-8", "POSIX", "xx_XX", ""]


def enc(u):
    """UTF-8 in its original form, up to 31 bits"""
    if u < 0x80: return bytes([u])
    if u < 0x800: return bytes([0xc0 | u >> 6, 0x80 | u & 63])
    if u < 0x10000: return bytes([0xe0 | u >> 12, 0x80 | u >> 6 & 63, 0x80 | u & 63])
    if u < 0x200000: return bytes([0xf0 | u >> 18, 0x80 | u >> 12 & 63, 0x80 | u >> 6 & 63, 0x80 | u & 63])
    if u < 0x4000000: return bytes([0xf8 | u >> 24] + [0x80 | u >> s & 63 for s in (18, 12, 6, 0)])
    return bytes([0xfc | u >> 30] + [0x80 | u >> s & 63 for s in (24, 18, 12, 6, 0)])


def probes_for(cleaner, keys):
    out = []
    for k in sorted(set(keys)):
        if cleaner == "utf_8":
            if not 0 < k < 0x80000000: continue
            p = enc(k)
        else:
            if not 0 < k < 256: continue
            p = bytes([k])
        if p == b"\n": continue
        if p == b".": p = b"..."
        out.append(p)
    return out


def run_table(job):
    """In a worker. job: text, env, cleaner, probes; builtin instead of text optional."""
    w = common.WORK
    tp, cp = os.path.join(w, "t.tbl"), os.path.join(w, "rc")
    if job.get("builtin"):
        f = 'builtin "%s"' % job["builtin"]
    else:
        with open(tp, "wb") as f: f.write(job["text"])
        f = 'filename "%s"' % tp
    with open(cp, "w") as g: g.write("sequence default { %s { %s; }; };\n" % (job["cleaner"], f))
    env = common.base_env({"LD_PRELOAD": job["shim"], "DSHIM_SYS": job["sys"], "DSHIM_ROOT": "/nonexistent", "HOME": "/nonexistent"})
    for k in ("LC_ALL", "LC_CTYPE", "LANG"):
        env.pop(k, None)
        if job["env"].get(k) is not None: env[k] = job["env"][k]
    cmd = [job["exe"], "--inline", "-f", cp]
    def go(ps): return common.run(cmd, cwd=w, env=env, stdin=b"".join(p + b"\n" for p in ps), timeout=120)
    r = go(job["probes"])
    res = {"code": r.code, "sig": r.sig, "err": r.err[-600:], "ok": r.code == 0 and r.sig == 0, "outs": None}
    if res["ok"]:
        ls = r.out.split(b"\n")[:-1]
        if len(ls) == len(job["probes"]):
            res["outs"] = ls
        else:
            # a translation contains a newline: one by one
            ls = []
            for p in job["probes"]:
                x = go([p])
                ls.append(x.out[:-1] if x.out.endswith(b"\n") else x.out + b"(no newline)")
            res["outs"] = ls
    return res


class Tables:
    def __init__(self, ctx, flavour="plain"):
        self.ctx, self.flavour = ctx, flavour
        self.exe = common.build(ctx, "detox", flavour)
        self.shim = common.build_shim(ctx)
        self.sys = ctx.sub("nosys")

    def fill(self, cases):
        for c in cases:
            c.update(exe=self.exe, shim=self.shim, sys=self.sys)
            c.setdefault("env", {"LC_ALL": "C"})
        return common.pmap(self.ctx, run_table, cases)

    def record(self, k, c, r):
        e = c["env"]
        enc_ = lambda x: list((e.get(x) or "").encode())
        ok = r["ok"]
        return {"id": k, "text": list(c["text"]), "lcall": enc_("LC_ALL"), "lcctype": enc_("LC_CTYPE"), "lang": enc_("LANG"), "ok": ok,
                "cleaner": c["cleaner"], "probes": [{"i": list(p), "o": list(o)} for p, o in zip(c["probes"], r["outs"])] if ok else []}

    def crashed(self, r):
        return r["sig"] != 0 or (not r["ok"] and (r["code"] != 1 or b"unable to parse file" not in r["err"]))

    def check(self, cases, name):
        ctx = self.ctx
        res = self.fill(cases)
        recs = []
        for k, (c, r) in enumerate(zip(cases, res)):
            if self.crashed(r):
                ctx.violation("%s: loading a table ends with exit %d signal %d, stderr %r; table %r" % (name, r["code"], r["sig"], r["err"][-300:], c["text"][:200]),
                              {"kind": "table", "case": strip(c), "result": r})
            recs.append(self.record(k, c, r))
        ctx.family(name, len(recs), probes=sum(len(r["probes"]) for r in recs), refused=sum(1 for r in recs if not r["ok"]))
        for c in cases[:2]: ctx.sample({"family": name, "table": c["text"][:300], "env": c["env"], "cleaner": c["cleaner"]}, 8)
        bad, _ = common.validate(ctx, "TraceTable", "TraceTable.cfg", recs, weight=lambda r: 50 + len(r["text"]) + 5 * len(r["probes"]))
        if not bad: return
        ids = sorted(bad)[:40]
        sel = [cases[k] for k in ids]
        res2 = self.fill(sel)
        recs2 = [self.record(k, cases[k], r) for k, r in zip(ids, res2)]
        bad2, out = common.validate(ctx, "TraceTable", "TraceTable.cfg", recs2, diag=True)
        diags = {d["tid"]: d for d in common.printed(out, "DIAG")}
        for k in sorted(bad2):
            d = diags.get(k, {"ok": None, "wrong": []})
            ws = [(bytes(w["i"]), bytes(w["o"]), bytes(w["want"])) for w in d["wrong"]]
            ctx.violation("%s: table %r with %s in %s: %s" % (name, cases[k]["text"][:300], cases[k]["cleaner"], cases[k]["env"],
                          "; ".join("%r became %r, specified %r" % w for w in ws[:4]) if ws else "accepted" if not d["ok"] else "refused"),
                          {"kind": "table", "case": strip(cases[k]), "diagnosis": d})

    def check_map(self, cases, name):
        """Large tables; cases: rows (list of (key, bytes)), default, probes (keys), cleaner utf_8."""
        ctx = self.ctx
        for c in cases:
            out = []
            if c.get("default"): out.append(b'default "' + c["default"] + b'"')
            out.append(b"start")
            for k, v in c["rows"]:
                out.append((b"%d %s" if c.get("short") else b'0x%04x\t"%s"') % (k, v))
            out.append(b"end\n")
            c["text"] = b"\n".join(out)
            c["probes"] = [enc(k) for k in c["keys"]]
            c["cleaner"] = "utf_8"
        res = self.fill(cases)
        recs = []
        for n, (c, r) in enumerate(zip(cases, res)):
            if not r["ok"]:
                ctx.violation("%s: a table of %d rows is not loaded: exit %d signal %d %r" % (name, len(c["rows"]), r["code"], r["sig"], r["err"][-200:]),
                              {"kind": "map", "case": strip(c), "result": r})
                continue
            recs.append({"id": n, "rows": [{"k": k, "v": list(v)} for k, v in c["rows"]], "hasdef": bool(c.get("default")), "def": list(c.get("default") or b""),
                         "ok": True, "probes": [{"k": k, "i": list(p), "o": list(o)} for k, p, o in zip(c["keys"], c["probes"], r["outs"])]})
        ctx.family(name, len(recs), rows=sum(len(r["rows"]) for r in recs), probes=sum(len(r["probes"]) for r in recs), largest=max([len(r["rows"]) for r in recs] or [0]))
        for c in cases[:1]: ctx.sample({"family": name, "rows": [(k, v) for k, v in c["rows"][:8]], "nrows": len(c["rows"])}, 8)
        bad, _ = common.validate(ctx, "TraceMap", "TraceMap.cfg", recs, weight=lambda r: 50 + len(r["rows"]) + len(r["probes"]))
        if not bad: return
        rs = [r for r in recs if r["id"] in bad][:20]
        bad2, out = common.validate(ctx, "TraceMap", "TraceMap.cfg", rs, diag=True)
        diags = {d["tid"]: d for d in common.printed(out, "DIAG")}
        for k in sorted(bad2):
            d = diags.get(k, {"wrong": []})
            ctx.violation("%s: in a table of %d rows value 0x%x became %r" % (name, len(cases[k]["rows"]), d["wrong"][0]["k"] if d["wrong"] else 0, bytes(d["wrong"][0]["o"]) if d["wrong"] else b""),
                          {"kind": "map", "case": strip(cases[k]), "diagnosis": d})


def strip(c):
    return {k: v for k, v in c.items() if k not in ("exe", "shim", "sys")}


# ---------------------------------------------------------------- generators

KEYS = [1, 7, 9, 10, 31, 32, 33, 34, 35, 38, 39, 45, 46, 48, 65, 66, 90, 95, 97, 98, 122, 126, 127, 128, 129, 159, 160, 173, 192, 228, 254, 255,
        256, 0x7ff, 0x800, 0x2010, 0xd800, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x1fffff, 0x7fffffff]


def num(rng, k):
    x = rng.random()
    if x < 0.35: s = "0x%04x" % k
    elif x < 0.45: s = "0X%X" % k
    elif x < 0.75: s = "%d" % k
    elif x < 0.9: s = "0%o" % k
    else: s = "+%d" % k
    return s.encode()


VALS = [b"", b"_", b"-", b"a", b"ab", b"_and_", b"#", b"a b", b" ", b"x#y", b"it", b"end", b"start", b"default", b"0x41", b"\xc3\xa4", b"\xff", b"%", b"%s%n", b"\\", b"\\n",
        b"//", b"q" * 30, b"a  b\tc", b"\\u00e4", b"A", b"..."]


def value(rng):
    v = rng.choice(VALS)
    x = rng.random()
    if x < 0.4: return b'"' + v + b'"'
    if x < 0.6: return b"'" + v + b"'"
    if x < 0.66: return b'"' + v + b"'" + v + b'"'
    if x < 0.7: return b"'" + v + b'"' + v + b"'"
    if x < 0.73: return b'"' + v
    if x < 0.76: return v + b'"' + v
    return v.replace(b" ", b"_") or b"e"


def ws(rng): return rng.choice([b" ", b"\t", b"  ", b" \t ", b"\t\t"])


def row(rng, keys=KEYS):
    k = rng.choice(keys)
    return rng.choice([b"", b"", b"", b" ", b"\t"]) + num(rng, k) + ws(rng) + value(rng) + rng.choice([b"", b"", b" ", b" # comment", b"\t"])


def badrow(rng):
    return rng.choice([b"", b"   ", b"abc", b"65", b"65 ", b"-5 x", b"65abc", b"089 x", b"0x41zz", b"# 65 x", b" # x", b"x 65 y", b"ending", b"en", b"end.", b"65\t", b"65,x", b"'65' x",
                       b"0x41\x0bv", b"6 5 x", b"+", b"-", b"startx", b"\xff", b"1e5 x", b"0b1 x", b"default z", b"start"])


def end(rng): return rng.choice([b"end", b"end", b"end", b"END", b"End", b" end", b"end foo", b"end "])


def start(rng, lang=None):
    s = rng.choice([b"start", b"start", b"START", b"start ", b" start", b"starting", b"Start\t"])
    if lang is None: return s
    s = s.rstrip()
    return s + ws(rng) + rng.choice([lang, b'"' + lang + b'"', b"'" + lang + b"'", lang + b" x"])


def default(rng):
    return rng.choice([b"default", b"default ", b"default _", b'default "_"', b"default 'x y'", b'default ""', b"default ''", b"DEFAULT q", b" default zz", b"default \xc3\xa4", b"defaults w", b"defaul _",
                       b'default "a\'b"', b"default #"])


def table_text(rng, langs=(None,), nrows=8, zero=0.04, keys=None):
    keys = keys or rng.sample(KEYS, rng.randint(2, 8))
    out = []
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(0, 2)):
            out.append(rng.choice([b"", b"# comment", b"65 outside", b"end", default(rng), b"stray", badrow(rng), row(rng, keys)]))
        out.append(start(rng, rng.choice(langs)))
        for _ in range(rng.randint(0, nrows)):
            out.append(row(rng, keys) if rng.random() < 0.8 else badrow(rng))
        if rng.random() < zero: out.append(b"0 x")
        if rng.random() < 0.92: out.append(end(rng))
    if rng.random() < 0.5: out.append(default(rng))
    if rng.random() < 0.06: out.insert(rng.randint(0, len(out)), rng.choice([b"# " + b"long " * 300, b"65 " + b"v" * 1100, b"66 '" + b"w" * 1015 + b"' x", b" " * 1022 + b"67 z"]))
    nl = rng.choice([b"\n"] * 8 + [b"\r\n", b"\n\n"])
    t = nl.join(out) + (nl if rng.random() < 0.9 else b"")
    if rng.random() < 0.08 and t:
        k = rng.randrange(len(t))
        t = t[:k] + bytes([rng.randrange(0, 256)]) + t[k + rng.randint(0, 1):]
    return t, keys


BARE0X = re.compile(rb"0[xX](?![0-9a-fA-F])")
NUMRE = re.compile(rb"0[xX][0-9a-fA-F]+|[0-9]+")


def sane(t):
    """Values of 2^31 and above, and 0x without digits (where C libraries differ), are outside the model."""
    if BARE0X.search(t): return False
    for m in NUMRE.findall(t):
        try:
            v = int(m, 16) if m[:2].lower() == b"0x" else int(m)
        except ValueError:
            continue
        if v >= 1 << 31 or len(m) > 10: return False
    return True
