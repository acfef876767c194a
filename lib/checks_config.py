"""C24-C29 (and the configuration part of C22): configuration files, tables, choice of a sequence, -L."""
import itertools, os
import common, prog, confgen, tables
from prog import SYSCONF, SYSDATA
from common import log

TREE = [(b"A b", "f", b"1"), (b"c d", "d", None), (b"c d/E f", "f", b"2"), (b"ok", "f", b"3")]
NOHOME = b"@TOP@/nohome"


def model(ctx, *cfgs):
    for c in cfgs: common.model_check(ctx, "MC_Config", c + ".cfg")


def listing(text, argv=(b"-L", b"-v"), **kw):
    d = {"argv": [b"-f", b"@TOP@/rc"] + list(argv), "files": {"@TOP@/rc": text}, "home": NOHOME}
    d.update(kw)
    return d


# ---------------------------------------------------------------- C27

def c27(ctx):
    model(ctx, "MCc_text")
    if ctx.thorough: model(ctx, "MCc_text_deep")
    W, rng = prog.World(ctx), ctx.rng
    valid = [confgen.tokens(rng) for _ in range(ctx.n(500, 5000))]
    W.check([listing(confgen.spell(rng, t)) for t in valid], "well-formed texts")
    W.check([listing(confgen.spell(rng, t, 2)) for t in valid[:ctx.n(150, 1500)]], "with characters that mean nothing")
    cases = []
    for _ in range(ctx.n(700, 8000)):
        t = confgen.spell(rng, confgen.broken(rng, rng.choice(valid)))
        if confgen.sane(t): cases.append(listing(t))
    W.check(cases, "token changed")
    cases = []
    while len(cases) < ctx.n(700, 8000):
        t = confgen.mangle(rng, confgen.spell(rng, rng.choice(valid)))
        if confgen.sane(t): cases.append(listing(t))
    W.check(cases, "bytes changed")
    # around one filter: every token everywhere
    cases = []
    for body in ([b"lower", b";"], [b"wipeup", b"{", b"remove_trailing", b";", b"}", b";"], [b"safe", b"{", b"builtin", b"safe1", b";", b"}", b";"],
                 [b"max_length", b"{", b"length", b"9", b";", b"}", b";"], [b"utf_8", b"{", b"filename", b'"f"', b";", b"}", b";"], [b"iso8859_1", b"{", b"}", b";"]):
        full = [b"sequence", b"n", b"{"] + body + [b"}", b";"]
        for i in range(len(full)):
            for j in confgen.JUNK:
                if ctx.thorough or rng.random() < 0.35: cases.append(listing(b" ".join(full[:i] + [j] + full[i + 1:])))
                if ctx.thorough or rng.random() < 0.2: cases.append(listing(b" ".join(full[:i] + [j] + full[i:])))
            cases.append(listing(b" ".join(full[:i] + full[i + 1:])))
    full = [b"ignore", b"{", b"filename", b"n", b";", b"}", b";"]
    for i in range(len(full)):
        for j in confgen.JUNK: cases.append(listing(b" ".join(full[:i] + [j] + full[i + 1:])))
        cases.append(listing(b" ".join(full[:i] + full[i + 1:])))
    W.check(cases, "every token in every place")
    # lexical corners
    cases = []
    for x in (b'"a"', b"a", b'"a b"', b'""', b'" a "', b"a_1", b"A", b'"#"', b'"a;b"', b'"{"', b"a-b", b"1a", b"a.b", b"_a", b"'a'", b'"a', b'a"', b'"a\nb"', b'"\xc3\xa4"', b"\xc3\xa4", b"ab#c", b'"\\"', b"sequence", b"Sequence", b'"sequence"', b"sequences", b"safe_", b"safe1", b"utf_8", b"utf_88", b"UTF_8", b"\\a", b"/a/b", b'"/a/b"', b"a b"):
        for tail in (b" { lower; };", b"{lower;};", b"\n{\nlower\n;\n}\n;\n", b"#c\n{ LOWER; } ;"):
            cases.append(listing(b"sequence " + x + tail))
        cases.append(listing(b"sequence default { safe { builtin " + x + b"; }; };"))
        cases.append(listing(b"ignore { filename " + x + b"; };"))
    for n in (b"0", b"1", b"007", b"010", b"08", b"0255", b"00000000000012", b"0x", b"0b1", b"1e3", b"1_0", b"12", b"1 2", b"-1", b"+1", b"0x10", b"1.5", b'"12"', b"abc", b"12abc", b"123456789", b"9#"):
        cases.append(listing(b"sequence default { max_length { length " + n + b"; }; };"))
    for t in (b"", b"\n", b"#", b"# x", b";", b"{}", b"\"", b"#\n\n#", b"sequence", b"\xef\xbb\xbfsequence a { lower; };", b"/* c */ sequence a { lower; };", b"// c\nsequence a { lower; };"):
        cases.append(listing(t))
    for k in confgen.KEYWORDS:
        for v in (k.upper(), k.capitalize(), k[:-1] + k[-1:].upper(), k[:-1], k + b"x", k.replace(b"_", b"-")):
            cases.append(listing(b"sequence default { " + v + b"; };"))
            cases.append(listing(v + b" default { lower; };"))
            cases.append(listing(b"sequence d { safe { " + v + b" x; }; };"))
    W.check([c for c in cases if confgen.sane(c["files"]["@TOP@/rc"])], "lexical corners")
    # long texts
    cases = []
    for n in (8100, 8180, 8192, 8200, 16384, 20000) if ctx.thorough else (8185, 8192, 16400):
        for k in range(3):
            t = b"sequence s%d { lower; };\n" % k
            while len(t) < n + k * 3 - 40: t += b"sequence %s { wipeup { remove_trailing; }; };\n" % (b"t" * rng.randint(1, 30))
            cases.append(listing(t + b"#" * max(0, n + k - len(t) - 1) + b"\n"))
            cases.append(listing(b"#" * (n + k - 4) + b"\nsequence x { lower; };\n"))
    W.check(cases, "long texts")


# ---------------------------------------------------------------- C25

def rc(name, ign=(), kind=None):
    """a file that defines two sequences, one of them shared, marked by its origin"""
    n = {"s1": 1, "s2": 2, "s3": 3, "home": 4, "xdg": 5, "f": 6, "f2": 7}[name]
    t = b"sequence common { max_length { length %d; }; };\nsequence only_%s { lower; max_length { length %d; }; };\n" % (n, name.encode(), n)
    if kind == "default": t += b"sequence default { max_length { length 1%d; }; };\n" % n
    if kind == "twice": t += b"sequence common { uncgi; };\n"
    if kind == "empty": t = b"# nothing\n"
    if kind == "ign": t = b""
    if kind == "bad": t = b"sequence broken_%s {\n" % name.encode()
    for i in ign: t += b"ignore { filename \"%s\"; };\n" % i
    return t


PLACES = {"s1": SYSCONF[0], "s2": SYSCONF[1], "s3": SYSCONF[2], "home": "@TOP@/h/.detoxrc", "xdg": "@TOP@/x/detox/detoxrc"}


def c25(ctx):
    model(ctx, "MCc_layers")
    if ctx.thorough: model(ctx, "MCc_layers_deep")
    W, rng = prog.World(ctx), ctx.rng
    cases = []
    for sub in itertools.product((0, 1), repeat=5):
        on = [p for p, b in zip(PLACES, sub) if b]
        for hv, xv in ((b"@TOP@/h", b"@TOP@/x"), (None, b"@TOP@/x"), (b"@TOP@/h", None), (b"@TOP@/x", b"@TOP@/h"), (b"", b"")):
            if hv != b"@TOP@/h" and not ctx.thorough and rng.random() < 0.4: continue
            kinds = {p: rng.choice([None, None, "default", "twice", "empty", "ign"]) for p in on}
            for kk in ({p: None for p in on}, kinds):
                files = {PLACES[p]: rc(p, [b"i_" + p.encode()] if kk[p] or rng.random() < 0.5 else (), kk[p]) for p in on}
                cases.append({"argv": [b"-L", b"-v"], "files": files, "home": hv, "xdg": xv})
    W.check(cases, "every subset of the files")
    cases = []
    for _ in range(ctx.n(250, 3000)):
        on = [p for p in PLACES if rng.random() < 0.5]
        files = {}
        for p in on:
            files[PLACES[p]] = rc(p, rng.choice([(), (b"CVS",), (b"a", b"b"), (b"i_" + p.encode(),)]), rng.choice([None, "default", "twice", "empty", "ign", "bad"] if rng.random() < 0.3 else [None, "default", "ign"])) \
                if rng.random() < 0.6 else confgen.spell(rng, confgen.tokens(rng, safe_only=True))
        un = [PLACES[p] for p in PLACES if p not in on and rng.random() < 0.15]
        argv = rng.choice([[b"-L", b"-v"], [b"-L"], [b"-vL", b"-s", b"common"]])
        x = rng.random()
        if x < 0.25:
            files["@TOP@/f"] = rc("f", (b"i_f",), rng.choice([None, "default", "empty", "bad"]))
            argv = [b"-f", b"@TOP@/f"] + argv
            if x < 0.1:
                files["@TOP@/f2"] = rc("f2")
                argv = argv + [b"-f@TOP@/f2"]
        elif x < 0.32: argv = [b"-f", b"@TOP@/missing"] + argv
        if all(confgen.sane(t) for t in files.values()):
            cases.append({"argv": argv, "files": files, "home": rng.choice([b"@TOP@/h"] * 4 + [None, b"", b"/nonexistent"]), "xdg": rng.choice([b"@TOP@/x"] * 4 + [None, b""]), "unreadable": un})
    W.check(cases, "random layers")
    # -f by every kind of path; working, not only listing
    cases = []
    for p in (b"../../c/conf", b"./../../c/conf", b"@TOP@/conf", b"@TOP@/sub/dir/conf.x", b"@TOP@//conf", b"@TOP@/./conf"):
        for a in ([b"-f", p], [b"-f" + p], [b"-vf", p], [b"-f", b"@TOP@/other", b"-f", p]):
            cases.append({"argv": a + [b"-L", b"-v"], "files": {p: rc("f", (b"i",), "default"), "@TOP@/other": rc("f2"), SYSCONF[1]: rc("s2"), "@TOP@/h/.detoxrc": rc("home")}, "home": b"@TOP@/h"})
            cases.append({"argv": a + [b"."], "files": {p: b"sequence default { lower; };", "@TOP@/other": b"sequence default { uncgi; };", SYSCONF[1]: b"sequence default { safe; };", "@TOP@/h/.detoxrc": b"sequence default { wipeup; };"}, "home": b"@TOP@/h", "tree": TREE})
    for a in ([b"-r", b"."], [b"-n", b"A b", b"c d"], [b"--inline"]):
        for on in ((), ("s1",), ("s3",), ("home",), ("xdg",), ("s2", "home"), ("s1", "xdg"), ("home", "xdg"), ("s1", "s2", "s3", "home", "xdg")):
            fs = {"s1": b"sequence default { max_length { length 1; }; };", "s2": b"sequence default { max_length { length 2; }; };", "s3": b"sequence default { lower; };ignore { filename \"c d\"; };",
                  "home": b"sequence default { wipeup; safe; };\nignore { filename \"E f\"; };", "xdg": b"sequence default { safe; lower; };ignore { filename \"A b\"; };"}
            cases.append({"argv": a, "files": {PLACES[p]: fs[p] for p in on}, "home": b"@TOP@/h", "xdg": b"@TOP@/x", "tree": TREE, "stdin": b"A b\nQ--x\n"})
    W.check(cases, "-f and working runs")


# ---------------------------------------------------------------- C26

def c26(ctx):
    model(ctx, "MCc_choice")
    W, rng = prog.World(ctx), ctx.rng
    defs = [[], [b"default"], [b"a"], [b"a", b"default"], [b"default", b"a"], [b"a", b"b"], [b"Default", b"a"], [b"a", b"b", b"default"], [b"", b"a"], [b"default "], [b"b", b"b", b"a"]]
    asks = [None, b"default", b"a", b"b", b"A", b"", b"zz", b"Default", b"default ", b"aa", b"0", b"-L"]
    cases = []
    for d in defs:
        text = b"".join(b"sequence \"%s\" { max_length { length %d; }; };\n" % (n, i + 1) for i, n in enumerate(d))
        for s in asks:
            for e in asks:
                if not ctx.thorough and rng.random() < 0.6 and s is not None and e is not None: continue
                opt = [] if s is None else rng.choice([[b"-s", s], [b"-s" + s] if s else [b"-s", s], [b"-s", b"other", b"-s", s]])
                mode = rng.choice([[b"-L"], [b"--inline"], [b"A b", b"ok"]]) if not ctx.thorough else None
                for m in ([mode] if mode else [[b"-L"], [b"--inline"], [b"A b", b"ok"]]):
                    cases.append({"argv": [b"-f", b"@TOP@/rc"] + (opt + m if rng.random() < 0.5 or m[0] != b"-L" else m + opt), "files": {"@TOP@/rc": text}, "dseq": e, "home": NOHOME, "stdin": b"abcdef\n", "tree": TREE})
    W.check(cases, "every way to ask")
    cases = []
    for _ in range(ctx.n(150, 1500)):
        ns = [rng.choice([b"default", b"a", b"b", b"A", b"utf_8", b"lower", b"x"]) for _ in range(rng.randint(1, 4))]
        files = {}
        for p in rng.sample(["s1", "s2", "home", "xdg"], rng.randint(0, 3)):
            files[PLACES[p]] = b"".join(b"sequence \"%s\" { max_length { length %d; }; };\n" % (rng.choice(ns + [b"q"]), rng.randint(1, 9)) for _ in range(rng.randint(0, 3)))
        opt = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])): opt += [b"-s", rng.choice(ns + [b"nope", b"utf_8", b"iso8859_1-legacy", b"uncgi"])]
        cases.append({"argv": opt + rng.choice([[b"-L"], [b"-Lv"], [b"--inline"], [b"-r", b"."]]), "files": files, "home": b"@TOP@/h", "xdg": b"@TOP@/x", "dseq": rng.choice([None, None, b"", rng.choice(ns), b"lower", b"nope"]),
                      "stdin": b"ABC+def%41 (x)\n", "tree": TREE})
    W.check(cases, "random choices")
    cases = []
    for n in [None] + [s for s in ("default", "iso8859_1", "iso8859_1-legacy", "utf_8", "uncgi", "lower", "iso8859_1-only", "cp1252-only", "utf_8-only", "uncgi-only", "lower-only", "Lower", "lower-", "")]:
        for how in ("s", "e"):
            if n is None and how == "e": continue
            base = {"home": NOHOME, "tree": TREE, "stdin": b"ABC+def%41 (x) \xe4 \xc3\xa4__ -\n", "dseq": n.encode() if n is not None and how == "e" else None}
            opt = [b"-s", n.encode()] if n is not None and how == "s" else []
            for m in ([b"-L"], [b"-L", b"-v"], [b"--inline"], [b"-r", b"."]): cases.append(dict(base, argv=opt + m))
            cases.append(dict(base, argv=opt, inlinebin=True))
    W.check(cases, "built-in sequences")


# ---------------------------------------------------------------- C24

def tbl(c, default=None):
    """a table that shows where it came from"""
    return (b"default %s\n" % default if default else b"") + b"start\n0x41 %s\n0xe4 %s\nend\n" % (c, c)


KINDS = {"safe": "safe.tbl", "iso8859_1": "iso8859_1.tbl", "utf_8": "unicode.tbl"}
PROBE = b"A\nxAy\n\xe4\n\xc3\xa4\n(\n&\n\x80\nplain\n"


def c24(ctx):
    W, rng = prog.World(ctx), ctx.rng
    cases = []
    for k, fn in KINDS.items():
        for sub in itertools.product((0, 1, 2), repeat=3):
            # 0 absent, 1 present, 2 unusable (a row for value 0)
            if 2 in sub and not ctx.thorough and rng.random() < 0.5: continue
            files = {}
            for i, (d, b) in enumerate(zip(SYSDATA, sub)):
                if b: files[d + fn] = tbl(b"[%d]" % i) if b == 1 else b"start\n0 x\n0x41 bad\nend\n"
                for other in KINDS.values():
                    if other != fn and rng.random() < 0.3: files[d + other] = tbl(b"wrong")
            for f in (b"", b" { }", b" { builtin \"safe\"; }", b" { builtin \"unicode\"; }", b" { filename \"@TOP@/own.tbl\"; }", b" { builtin \"nope\"; }", b" { filename \"@TOP@/none.tbl\"; }", b" { filename \"%s\"; }" % fn.encode()):
                if f not in (b"", b" { }") and not ctx.thorough and rng.random() < 0.75: continue
                fs = dict(files)
                fs["@TOP@/own.tbl"] = tbl(b"[own]", rng.choice([None, b"?"]))
                fs["@TOP@/rc"] = b"sequence default { %s%s; };\n" % (k.encode(), f)
                cases.append({"argv": [b"-f", b"@TOP@/rc", b"--inline"], "files": fs, "stdin": PROBE, "home": NOHOME})
                if rng.random() < 0.15: cases.append({"argv": [b"-f", b"@TOP@/rc", b"-v", b"Aa", b"ok"], "files": fs, "tree": [(b"Aa", "f", None), (b"ok", "f", None)], "home": NOHOME})
    W.check(cases, "where each kind of table is found")
    cases = []
    for k in KINDS:
        for n in (b"safe", b"unicode", b"iso8859_1", b"cp1252", b"SAFE", b"Safe", b"utf_8", b"safe.tbl", b"", b"saf", b"unicode ", b"cp-1252", b"iso8859-1", b"nope"):
            fs = {"@TOP@/rc": b"sequence default { %s { builtin \"%s\"; }; };\n" % (k.encode(), n)}
            for d in SYSDATA:
                for x in ("safe", "unicode", "iso8859_1", "cp1252", "SAFE"):
                    if rng.random() < 0.4: fs[d + x + ".tbl"] = tbl(b"wrong")
                    if rng.random() < 0.1: fs[d + x] = tbl(b"wrong")
            cases.append({"argv": [b"-f", b"@TOP@/rc", b"--inline"], "files": fs, "stdin": PROBE, "home": NOHOME})
            cases.append({"argv": [b"-f", b"@TOP@/rc", b"A b", b"c d", b"-r"], "files": fs, "tree": TREE, "home": NOHOME})
    for k in KINDS:
        for p in (b"@TOP@/own.tbl", b"@TOP@/a b/own", b"../../c/rel.tbl", b"@TOP@/empty", b"@TOP@/bad", b"@TOP@/none", b"none", b"safe.tbl", b"unicode.tbl", b"safe", b"cp1252.tbl", b"", b"/nonexistent/x.tbl", b"@TOP@/noread"):
            fs = {"@TOP@/rc": b"sequence default { lower; %s { filename \"%s\"; }; wipeup; };\n" % (k.encode(), p), "@TOP@/own.tbl": tbl(b"[own]"), "@TOP@/a b/own": tbl(b"[b]", b"!"), "../../c/rel.tbl": tbl(b"[rel]"),
                  "@TOP@/empty": b"", "@TOP@/bad": b"start\n0x41 x\n0 y\nend\n"}
            for d in SYSDATA:
                for x in list(KINDS.values()) + ["none", "cp1252.tbl"]:
                    if rng.random() < 0.4: fs[d + x] = tbl(b"wrong")
            cases.append({"argv": [b"-f", b"@TOP@/rc", b"--inline"], "files": fs, "stdin": PROBE + b"a\xe4\n", "home": NOHOME, "unreadable": ["@TOP@/noread"]})
            cases.append({"argv": [b"-f", b"@TOP@/rc", b"A b", b"c d", b"-r"], "files": fs, "tree": TREE, "home": NOHOME, "unreadable": ["@TOP@/noread"]})
    W.check(cases, "named tables")
    # only the chosen sequence needs its tables; all its filters do
    cases = []
    for _ in range(ctx.n(250, 2500)):
        seqs = []
        for i in range(rng.randint(1, 3)):
            fl = []
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(list(KINDS) + ["lower", "wipeup", "uncgi"])
                fl.append(k.encode() + (b"" if k not in KINDS else rng.choice([b"", b"{ builtin safe1; }" if rng.random() < 0.2 else b'{ builtin "safe"; }', b'{ builtin cp1252; }', b'{ filename "@TOP@/t%d.tbl"; }' % rng.randint(1, 2), b'{ filename "@TOP@/no.tbl"; }' if rng.random() < 0.3 else b"{ }"])) + b";")
            seqs.append(b"sequence s%d { %s };\n" % (i, b" ".join(fl)))
        fs = {"@TOP@/rc": b"".join(seqs), "@TOP@/t1.tbl": tbl(b"1"), "@TOP@/t2.tbl": tbl(b"\xc3\xa4", b"_")}
        for d in SYSDATA:
            for x in KINDS.values():
                if rng.random() < 0.15: fs[d + x] = tbl(rng.choice([b"p", b"q", b"A"]))
        cases.append({"argv": [b"-f", b"@TOP@/rc", b"-s", b"s%d" % rng.randint(0, 2)] + rng.choice([[b"--inline"], [b"-rv", b"."], [b"--inline"]]), "files": fs, "stdin": PROBE, "home": NOHOME, "tree": TREE,
                      "locale": rng.choice(["C", "de_DE.utf8"])})
    W.check(cases, "several filters and sequences")


# ---------------------------------------------------------------- C28

def c28(ctx):
    W, rng = prog.World(ctx), ctx.rng
    good = b"sequence default { lower; };\nsequence other { uncgi; };\n"
    faults = {
        "unparsable": {"files": {"@TOP@/rc": b"sequence default { lower; };\nsequence x {"}, "argv": [b"-f", b"@TOP@/rc"]},
        "junk": {"files": {"@TOP@/rc": b"lower;"}, "argv": [b"-f", b"@TOP@/rc"]},
        "trailing junk": {"files": {"@TOP@/rc": good + b"}"}, "argv": [b"-f", b"@TOP@/rc"]},
        "missing file": {"files": {}, "argv": [b"-f", b"@TOP@/nothing"]},
        "unreadable": {"files": {}, "argv": [b"-f", b"@TOP@/secret"], "unreadable": ["@TOP@/secret"]},
        "empty": {"files": {"@TOP@/rc": b""}, "argv": [b"-f", b"@TOP@/rc"]},
        "only ignore": {"files": {"@TOP@/rc": b"ignore { filename x; };"}, "argv": [b"-f", b"@TOP@/rc"]},
        "no such sequence": {"files": {"@TOP@/rc": good}, "argv": [b"-f", b"@TOP@/rc", b"-s", b"none"]},
        "no such builtin sequence": {"files": {}, "argv": [b"-s", b"none"]},
        "environment": {"files": {"@TOP@/rc": good}, "argv": [b"-f", b"@TOP@/rc"], "dseq": b"none"},
        "empty name": {"files": {"@TOP@/rc": good}, "argv": [b"-f", b"@TOP@/rc", b"-s", b""]},
        "builtin table": {"files": {"@TOP@/rc": b"sequence default { lower; safe { builtin nope; }; };"}, "argv": [b"-f", b"@TOP@/rc"]},
        "table file": {"files": {"@TOP@/rc": b"sequence default { lower; utf_8 { filename \"@TOP@/no\"; }; };"}, "argv": [b"-f", b"@TOP@/rc"]},
        "second table": {"files": {"@TOP@/rc": b"sequence default { safe; lower; iso8859_1 { filename \"@TOP@/no\"; }; };"}, "argv": [b"-f", b"@TOP@/rc"]},
        "bad table": {"files": {"@TOP@/rc": b"sequence default { lower; utf_8 { filename \"@TOP@/t\"; }; };", "@TOP@/t": b"start\n0 x\nend"}, "argv": [b"-f", b"@TOP@/rc"]},
        "home": {"files": {"@TOP@/h/.detoxrc": b"sequence default { lower }"}, "argv": [], "home": b"@TOP@/h"},
        "xdg after good home": {"files": {"@TOP@/h/.detoxrc": good, "@TOP@/x/detox/detoxrc": b"ignore { };"}, "argv": [], "home": b"@TOP@/h", "xdg": b"@TOP@/x"},
        "system": {"files": {SYSCONF[0]: b"{", "@TOP@/h/.detoxrc": good}, "argv": [], "home": b"@TOP@/h"},
        "home without it": {"files": {"@TOP@/h/.detoxrc": b"sequence a { lower; };"}, "argv": [b"-s", b"default"], "home": b"@TOP@/h"},
        "good": {"files": {"@TOP@/rc": good}, "argv": [b"-f", b"@TOP@/rc"]},
        "good home": {"files": {"@TOP@/h/.detoxrc": good}, "argv": [], "home": b"@TOP@/h"},
    }
    works = [[b"A b"], [b"-r", b"."], [b"-v", b"A b", b"c d"], [b"-n", b"A b", b"nofile"], [b"--inline"], [b"--inline", b"A b"], [b"--special", b"-rv", b"c d", b"A b"], [], [b"-v"], [b"-L"], [b"-L", b"-v", b"A b"], [b"--"], [b"-nv"], [b"-r"], [b"nofile"]]
    cases = []
    for n, f in faults.items():
        for w in works:
            d = {"home": NOHOME, "tree": TREE, "stdin": b"Some Line\n", "data": 1}
            d.update(f)
            d["argv"] = f["argv"] + w
            cases.append(d)
            if rng.random() < ctx.n(0.4, 1): cases.append(dict(d, argv=w[:1] + f["argv"] + w[1:]) if w and w[0] != b"--" else dict(d, inlinebin=True))
    W.check(cases, "every fault with every kind of work")
    cases = []
    for _ in range(ctx.n(250, 3000)):
        t = confgen.spell(rng, confgen.broken(rng, confgen.tokens(rng, 2, safe_only=True)) if rng.random() < 0.6 else confgen.tokens(rng, 2))
        if not confgen.sane(t): continue
        cases.append({"argv": [b"-f", b"@TOP@/rc"] + rng.choice([[], [], [b"-s", rng.choice(confgen.NAMES)]]) + rng.choice(works), "files": {"@TOP@/rc": t}, "home": NOHOME, "tree": TREE, "stdin": b"Some Line\n", "data": 1})
    W.check(cases, "random configurations, working")


# ---------------------------------------------------------------- C29

def c29(ctx):
    model(ctx, "MCc_list")
    W, rng = prog.World(ctx), ctx.rng
    cases = []
    extra = [[], [b"A b"], [b"-r", b"."], [b"-n"], [b"--inline"], [b"--special", b"c d"], [b"nofile"], [b"--", b"-x"], [b"-rn", b"A b", b"c d"], [b"-r", b"--inline", b"A b"]]
    for _ in range(ctx.n(500, 5000)):
        files = {}
        for p in rng.sample(list(PLACES), rng.randint(0, 3)): files[PLACES[p]] = confgen.spell(rng, confgen.tokens(rng))
        argv = [rng.choice([b"-L", b"-Lv", b"-vL", b"-L"])]
        if rng.random() < 0.3: argv.append(rng.choice([b"-v", b"--verbose"]))
        if rng.random() < 0.4: argv = rng.choice([argv + [b"-s", rng.choice(confgen.NAMES)], [b"-s", rng.choice(confgen.NAMES)] + argv])
        if rng.random() < 0.3:
            files["@TOP@/rc"] = confgen.spell(rng, confgen.tokens(rng))
            argv = [b"-f", b"@TOP@/rc"] + argv
        e = rng.choice(extra)
        argv = argv + e if rng.random() < 0.6 or b"--" in e else e + argv
        cases.append({"argv": argv, "files": files, "home": b"@TOP@/h", "xdg": b"@TOP@/x", "dseq": rng.choice([None, None, None, b"", rng.choice(confgen.NAMES)]), "tree": TREE, "stdin": b"Line\n", "inlinebin": rng.random() < 0.25})
    cases = [c for c in cases if all(confgen.sane(t) for t in c["files"].values())]
    W.check(cases, "random configurations, listed")
    cases = []
    for e in extra:
        for v in ([b"-L"], [b"-L", b"-v"], [b"-vL"], [b"-L", b"-L"]):
            for s in (None, b"utf_8", b"nope", b"uncgi-only"):
                for i in (False, True):
                    cases.append({"argv": v + ([b"-s", s] if s else []) + e, "home": NOHOME, "tree": TREE, "stdin": b"Line\n", "inlinebin": i})
    W.check(cases, "built-in configuration, listed")
    # one of everything
    fl = [b"uncgi", b"lower", b"safe", b"safe {}", b"safe { builtin x; }", b"safe { filename \"/p q\"; }", b"iso8859_1", b"iso8859_1 { builtin x; }", b"iso8859_1 { filename \"a\"; }", b"utf_8", b"utf_8 {builtin y;}",
          b"utf_8 { filename \"b.tbl\"; }", b"wipeup", b"wipeup {}", b"wipeup { remove_trailing; }", b"max_length", b"max_length {}", b"max_length { length 0; }", b"max_length { length 255; }", b"max_length { length 2000000; }", b"safe { builtin \"\"; }"]
    cases = [listing(b"sequence default { " + b";".join(fl) + b"; };"), listing(b"".join(b"sequence s%d { %s; };" % (i, f) for i, f in enumerate(fl)))]
    for a in fl:
        for b in fl:
            if ctx.thorough or rng.random() < 0.3: cases.append(listing(b"sequence x { %s; %s; };ignore { filename y; };" % (a, b)))
    W.check(cases, "all filters listed")


# ---------------------------------------------------------------- C22

def shipped_config(ctx):
    text = open(os.path.join(common.REPO, "etc", "detoxrc"), "rb").read()
    bad, _ = common.validate(ctx, "TraceShippedRc", "TraceShipped.cfg", [{"id": 1, "text": list(text)}])
    ctx.family("etc/detoxrc against the built-in configuration", 1)
    if bad:
        bad, out = common.validate(ctx, "TraceShippedRc", "TraceShipped.cfg", [{"id": 1, "text": list(text)}], diag=True)
        d = common.printed(out, "DIAG")
        ctx.violation("the shipped etc/detoxrc and the built-in configuration differ: %s" % (str(d[:1])[:400]), {"kind": "shippedrc", "diagnosis": d})
    W = prog.World(ctx)
    cases = []
    for v in ([b"-L"], [b"-L", b"-v"]):
        for s in (None, b"utf_8", b"lower-only", b"x"):
            o = [b"-s", s] if s else []
            cases.append({"argv": v + o, "home": NOHOME})
            cases.append({"argv": [b"-f", b"@TOP@/detoxrc"] + v + o, "files": {"@TOP@/detoxrc": text}, "home": NOHOME})
            cases.append({"argv": v + o, "files": {SYSCONF[0]: text}, "home": NOHOME})
    tree = [(b"A b", "f", b"1"), (b"{arch}", "d", None), (b"{arch}/C d", "f", None), (b"x&y%20\xe4", "f", None), (b"d", "d", None), (b"d/{arch}", "f", None), (b"d/\xc3\xa4 \xe2\x80\x93__z-", "f", None)]
    for s in (None, b"iso8859_1", b"iso8859_1-legacy", b"utf_8", b"uncgi", b"lower", b"iso8859_1-only", b"cp1252-only", b"utf_8-only", b"uncgi-only", b"lower-only"):
        o = [b"-s", s] if s else []
        for w in ([b"-r", b"."], [b"--inline"]):
            st = b"A b(c)&d%41+\xe4\x80 \xc3\xa4\xe2\x80\x93__z-\n"
            cases.append({"argv": o + w, "home": NOHOME, "tree": tree, "stdin": st})
            cases.append({"argv": [b"-f", b"@TOP@/detoxrc"] + o + w, "files": {"@TOP@/detoxrc": text}, "home": NOHOME, "tree": tree, "stdin": st})
    W.check(cases, "built-in and shipped configuration at work")


CHECKS = {"C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29}
