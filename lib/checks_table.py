"""C20-C23: table files, tables in memory, the builtin tables."""
import os
import common, tables
from common import log
from tables import enc


def table_case(ctx, rng, langs, env, **kw):
    while True:
        t, keys = tables.table_text(rng, langs=langs, **kw)
        if tables.sane(t): break
    cl = rng.choice(["utf_8", "utf_8", "safe", "iso8859_1"])
    ks = set(keys) | {k + 1 for k in keys} | {65, 97, 255, 5, 6, 8, 200}
    return {"text": t, "cleaner": cl, "probes": tables.probes_for(cl, ks), "env": env}


def fixed(text, cleaner="utf_8", keys=(), env=None):
    ks = set(keys) | set(range(1, 256)) - {10}
    return {"text": text, "cleaner": cleaner, "probes": tables.probes_for(cleaner, ks), "env": env or {"LC_ALL": "C"}}


def systematic():
    """Every line shape on its own, with a row before and a row after that must not be affected."""
    out = []
    nums = [b"65", b"0x41", b"0X41", b"0101", b"+65", b" 65", b"\t65", b"066", b"0x0041", b"00101", b"255", b"0xff", b"0377"]
    vals = [b"x", b'"x"', b"'x'", b'""', b"''", b'"a b"', b"'a b'", b"a b", b'"it\'s"', b"'say \"x\"'", b'"', b"'", b"#", b'"#"', b'"x" # c', b"x # c", b"x#y", b'"x', b"'x", b'x"y"', b"\\", b'"\\"', b'"\\n"', b'"\\u00e4"',
            b'"\xc3\xa4"', b"\xff", b'"%s"', b"end", b"start", b'"end"', b'" x "', b'"\t"', b"x\ty"]
    seps = [b" ", b"\t", b"   ", b"\t \t"]
    for n in nums:
        for v in vals: out.append(n + b" " + v)
    for s in seps:
        for v in (b"x", b'"x"', b"'a b'"): out.append(b"65" + s + v)
    out += [b"", b" ", b"#", b"# 65 x", b" # 65 x", b"#65 x", b"65", b"65 ", b"abc", b"x 65 y", b"-65 x", b"65x y", b"65 x y z", b"089 x", b"0x x y", b"0xg x", b"65\tx\r", b"end", b"END", b"eNd", b" end", b"end x", b"ending", b"en", b"start", b"default q",
            b"65.5 x", b"6 5 x", b"'65' x", b"65,x", b"65 ;x", b"65\x0bx", b"65\x0cx", b"+ x", b"- x", b"0 x"]
    return out


def c20(ctx):
    T = tables.Tables(ctx)
    rng = ctx.rng
    cases = []
    for l in systematic():
        if not tables.sane(l): continue
        cases.append(fixed(b"start\n66 before\n" + l + b"\n67 after\nend\n65 outside\n"))
        if ctx.thorough or rng.random() < 0.3: cases.append(fixed(b"start\n65 first\n" + l + b"\nend\nstart\n67 after\nend\n", "iso8859_1" if rng.random() < 0.3 else "safe"))
    for d in (b"", b"default", b"default x", b'default "x"', b"default 'x y'", b'default ""', b"default ''", b"DEFAULT x", b"Default\tx", b" default x", b"default x y", b"#default x", b"default #", b"default x\ndefault y", b'default x\ndefault ""', b"default x\ndefault",
              b"default \xc3\xa4", b"default_ x", b"default   'it\"s'", b"default \"", b"default x # y"):
        for pos in range(3):
            parts = [b"start\n65 a\n66 ''\nend\n", b"start\n67 c\nend\n"]
            parts.insert(pos, d + b"\n")
            for cl in ("utf_8", "iso8859_1", "safe"):
                cases.append(fixed(b"".join(parts), cl, (0x2010, 0x10ffff)))
        cases.append(fixed(b"start\n65 a\n" + d + b"\n66 b\nend\n"))
    for s in (b"start", b"START", b"Start", b" start", b"start ", b"\tstart\t", b"start # x", b"start C", b'start "C"', b"start 'C'", b"start c", b"start xx", b"start \"\"", b"begin", b"#start", b"starts", b"star", b"st art", b"end"):
        cases.append(fixed(s + b"\n65 a\nend\n66 b\n" + s + b"\n67 c\n"))
    for eol in (b"\n", b"\r\n", b"\n\n", b"\r"):
        for fin in (True, False):
            cases.append(fixed(eol.join([b"default _", b"start", b"65 'a b'", b"66 \"\"", b"0x43 c", b"end"]) + (eol if fin else b"")))
    for n in (60, 1000, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1030, 2046, 2050):
        cases.append(fixed(b"start\n65 " + b"v" * n + b"\n66 b\nend\n"))
        cases.append(fixed(b"start\n65 v" + b" " * n + b"67 w\n66 b\nend\n"))
        cases.append(fixed(b"#" + b"c" * n + b"\nstart\n66 b\nend\n"))
        cases.append(fixed(b"start\n" + b" " * n + b"65 v\n66 b\nend\n"))
    for k in (1, 127, 128, 255, 256, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7ffffffe):
        cases.append(fixed(b"start\n0x%x v\nend\n" % k, "utf_8", (k, k - 1, k + 1)))
        cases.append(fixed(b"start\n%d v\n0%o w\nend\n" % (k, k), "utf_8", (k, k - 1, k + 1)))
    T.check(cases, "systematic tables")
    T.check([table_case(ctx, rng, (None, None, None, b"C"), {"LC_ALL": "C"}) for _ in range(ctx.n(2500, 25000))], "random tables")
    # the tables of the distribution, as the specification reads them
    cases = []
    for d in ("table", "table/legacy"):
        p = os.path.join(common.REPO, d)
        for n in sorted(os.listdir(p)):
            if not n.endswith(".tbl"): continue
            t = open(os.path.join(p, n), "rb").read()
            if len(t) > 60000 or not tables.sane(t): continue
            for cl in ("utf_8", "iso8859_1"):
                cases.append(fixed(t, cl, list(range(0x2000, 0x2080)) if ctx.thorough else list(range(0x2000, 0x2070, 3))))
    T.check(cases, "tables of the distribution")


LANGS = (b"C", b"c", b"en", b"EN", b"en_US", b"en_us.utf8", b"EN_US.UTF-8", b"de", b"de_DE", b"DE_de", b"d", b"de_DE.utf8", b"de_DE.utf8x", b"fr", b"POSIX", b"P", b"C.utf8", b"xx", b"en_GB", b"e", b"_", b"nl")
ENVS = [{"LC_ALL": x} for x in tables.LOCALES] + \
       [{"LC_CTYPE": "en_US.utf8", "LANG": "de_DE.utf8"}, {"LANG": "de_DE.utf8"}, {}, {"LC_ALL": "de_DE.utf8", "LC_CTYPE": "en_US.utf8", "LANG": "C"}, {"LC_ALL": "", "LC_CTYPE": "", "LANG": "en_US.utf8"},
        {"LC_ALL": "", "LC_CTYPE": "de_DE.utf8", "LANG": "en_US.utf8"}, {"LC_CTYPE": "xx", "LANG": "de_DE.utf8"}, {"LC_CTYPE": "C", "LANG": "de_DE.utf8"}]


def c23(ctx):
    T = tables.Tables(ctx)
    rng = ctx.rng
    cases = []
    for e in ENVS:
        for l in LANGS:
            for q in (b"%s", b'"%s"', b"'%s'"):
                if q != b"%s" and not ctx.thorough and rng.random() < 0.6: continue
                cases.append(fixed(b"start\n65 generic\n66 both\nend\nstart " + q % l + b"\n66 lang\n67 more\nend\nstart\n68 last\nend\n", "utf_8", (), e))
                cases.append(fixed(b"start " + q % l + b"\n66 lang\n67 more\n68 ''\nend\nstart\n66 generic\nend\ndefault _\n", "iso8859_1", (), e))
    T.check(cases, "each language in each locale")
    langs = (None, None) + LANGS
    T.check([table_case(ctx, rng, langs, rng.choice(ENVS), zero=0.01) for _ in range(ctx.n(2500, 25000))], "random tables with languages")
    p = os.path.join(common.REPO, "table/legacy/unicode.tbl")
    if os.path.exists(p):
        t = open(p, "rb").read()
        if len(t) < 60000 and tables.sane(t): T.check([fixed(t, "utf_8", list(range(0x100, 0x180)), e) for e in ENVS], "legacy unicode table")


def big(ctx, rng, n, mode):
    """n rows; the keys such that they collide in the ways of the array behind the table"""
    est = max(500, n)
    if mode == "random": ks = [rng.randint(1, 0x10ffff) for _ in range(n)]
    elif mode == "dense": ks = list(range(1, n + 1))
    elif mode == "reverse": ks = list(range(n, 0, -1))
    elif mode == "multiples":
        m = rng.choice([500, 1000, 512, 255, 100, est])
        ks = [m * (1 + i % max(1, 0x10ffff // m)) for i in range(n)]
    elif mode == "clusters":
        base = [rng.randint(1, 0xf0000) for _ in range(max(1, n // 50))]
        ks = [rng.choice(base) + rng.choice([0, 500, 1000, est, 2 * est, 1, 2]) for _ in range(n)]
    elif mode == "few": ks = [rng.choice([1, 2, 501, 1001, 500, 1000, 65, 565]) for _ in range(n)]
    else: ks = [rng.choice([rng.randint(1, 0x10ffff), 500 * rng.randint(1, 100), rng.randint(1, 300)]) for _ in range(n)]
    if mode in ("dense", "multiples") and rng.random() < 0.3: rng.shuffle(ks)
    if rng.random() < 0.4: ks += [rng.choice(ks) for _ in range(rng.randint(1, n))]      # redefinitions
    rows = [(k, b"%x" % i) for i, k in enumerate(ks) if k not in (10, 46)]
    return rows


def c21(ctx):
    common.model_check(ctx, "DetoxHash", "MCh_hash.cfg")
    if ctx.thorough: common.model_check(ctx, "DetoxHash", "MCh_hash_deep.cfg")
    T = tables.Tables(ctx)
    rng = ctx.rng
    sizes = [1, 2, 5, 50, 499, 500, 501, 502, 999, 1000, 1001, 1500, 2500, 5000, 9000, 20000]
    if ctx.thorough: sizes += [10000, 20000, 40000, 70000]
    cases = []
    for n in sizes:
        for mode in ("random", "dense", "reverse", "multiples", "clusters", "few", "mixed"):
            if n > 5000 and (mode == "few" or not ctx.thorough and mode not in ("random", "dense")): continue
            for rep in range(1 if n > 1001 else ctx.n(2, 6)):
                rows = big(ctx, rng, n, mode)
                ks = sorted({k for k, _ in rows})
                keys = rng.sample(ks, min(len(ks), ctx.n(250, 1500)))
                keys += [k for k in {k + d for k in rng.sample(ks, min(len(ks), 80)) for d in (1, 500, n, 1000)} if 0 < k <= 0x10ffff and k not in (10, 46)]
                cases.append({"rows": rows, "default": rng.choice([None, b"?"]), "keys": [k for k in keys if k <= 0x10ffff], "short": rep % 2 == 1})
    T.check_map(cases, "large tables")
    # small tables, exhaustively: all histories of four puts over colliding keys
    import itertools
    cases = []
    for t in itertools.product([1, 501, 2, 1001], repeat=4):
        rows = [(k, b"v%d" % i) for i, k in enumerate(t)]
        cases.append({"rows": rows, "default": None, "keys": [1, 2, 3, 501, 502, 1001, 1501], "short": True})
    T.check_map(cases, "all histories of four rows")


def shipped_tables(ctx):
    T = tables.Tables(ctx)
    recs, cases = [], []
    rng = ctx.rng
    cps = list(range(1, 0x500)) + list(range(0x1f00, 0x2400)) + [c for b in range(0x500, 0x110000, ctx.n(0x333, 0x33)) for c in (b, b + 1)] + [0x3000, 0xfeff, 0xfffd, 0x10ffff, 0x110000, 0x7ffffffe]
    if ctx.thorough: cps += list(range(0x500, 0x10000))
    for n in ("safe", "unicode", "iso8859_1", "cp1252"):
        text = open(os.path.join(common.REPO, "table", n + ".tbl"), "rb").read()
        for cl in ("safe", "iso8859_1", "utf_8"):
            ks = cps if cl == "utf_8" else range(1, 256)
            ps = tables.probes_for(cl, [k for k in ks])
            for part in range(0, len(ps), 4000):
                sub = ps[part:part + 4000]
                cases.append({"text": text, "builtin": n, "cleaner": cl, "probes": sub, "env": {"LC_ALL": "C"}})
                cases.append({"text": text, "cleaner": cl, "probes": sub, "env": {"LC_ALL": "C"}, "n": n})
    res = T.fill(cases)
    for i in range(0, len(cases), 2):
        b, f = res[i], res[i + 1]
        n, cl = cases[i]["builtin"], cases[i]["cleaner"]
        for what, r in (("builtin table", b), ("table file", f)):
            if not r["ok"]:
                ctx.violation("%s %s with filter %s: exit %d signal %d %r" % (what, n, cl, r["code"], r["sig"], r["err"][-200:]), {"kind": "shipped", "table": n, "cleaner": cl})
        if not (b["ok"] and f["ok"]): continue
        recs.append({"id": i, "name": n, "text": list(cases[i]["text"]), "cleaner": cl,
                     "probes": [{"i": list(p), "b": list(x), "f": list(y)} for p, x, y in zip(cases[i]["probes"], b["outs"], f["outs"])]})
    ctx.family("builtin tables against shipped tables", len(recs), probes=sum(len(r["probes"]) for r in recs))
    ctx.sample({"family": "builtin tables", "tables": ["safe", "unicode", "iso8859_1", "cp1252"], "code points": len(cps)})
    bad, _ = common.validate(ctx, "TraceShipped", "TraceShipped.cfg", recs, weight=lambda r: len(r["probes"]) + 1000)
    if not bad: return
    bad, out = common.validate(ctx, "TraceShipped", "TraceShipped.cfg", [r for r in recs if r["id"] in bad], diag=True)
    diags = {d["tid"]: d for d in common.printed(out, "DIAG")}
    for k in sorted(bad):
        d = diags.get(k, {"meaning": None, "keys": [], "wrong": []})
        ws = ["%r: builtin %r, file %r, specified %r" % tuple(bytes(w[x]) for x in ("i", "b", "f", "want")) for w in d["wrong"]]
        ctx.violation("table %s with filter %s: %s%s" % (cases[k]["builtin"], cases[k]["cleaner"], "; ".join(ws[:4]), " (values that differ: %s)" % d["keys"][:8] if d["keys"] else ""),
                      {"kind": "shipped", "table": cases[k]["builtin"], "cleaner": cases[k]["cleaner"], "diagnosis": d})


def c22(ctx):
    shipped_tables(ctx)
    try:
        import checks_config
    except ModuleNotFoundError:
        return
    checks_config.shipped_config(ctx)


CHECKS = {"C20": c20, "C21": c21, "C22": c22, "C23": c23}
