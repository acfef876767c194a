"""C30-C32: inline mode."""
import itertools
import common, prog, scen
from confgen import NAMES

NOHOME = b"@TOP@/nohome"
CHARS = [b"a", b"B", b" ", b"_", b"-", b".", b"&", b"(", b"%41", b"+", b"%", b"#", b"\xe4", b"\xc3\xa4", b"\xe2\x80\x93", b"\xf0\x9f\x98\x80", b"\x80", b"\xc3", b"\x01", b"\x7f", b"\xff", b"\t", b"\r", b"'", b"\"", b"\\", b"/", b"x.tar.gz", b"\xc2\xa0", b"\xe1"]
SEQS = [None, b"utf_8", b"utf_8-only", b"lower", b"lower-only", b"uncgi", b"uncgi-only", b"iso8859_1", b"iso8859_1-legacy", b"cp1252-only"]
OWN = [b"wipeup;", b"wipeup { remove_trailing; };", b"max_length { length 5; };", b"max_length;", b"max_length { length 1020; };", b"safe; wipeup { remove_trailing; }; max_length { length 12; };", b"utf_8 { filename \"@TOP@/t.tbl\"; };", b"safe { filename \"@TOP@/t.tbl\"; };",
       b"lower; uncgi; safe;", b"utf_8; lower; wipeup;"]
TBL = b"default ?\nstart\n0x41 1\n0xe4 ae\n0x2013 -\n0x1f600 \"\"\n0x42 \"a long replacement string\"\nend\n"


def model(ctx, *cfgs):
    for c in cfgs: common.model_check(ctx, "MC_Inline", c + ".cfg")


def conf(rng, own=0.35):
    """options and files that select a sequence"""
    if rng.random() < own:
        return [b"-f", b"@TOP@/rc"], {"@TOP@/rc": b"sequence default { " + rng.choice(OWN) + b" };\n", "@TOP@/t.tbl": TBL}
    s = rng.choice(SEQS)
    return ([b"-s", s] if s else []), {}


def text(rng, n):
    return b"".join(rng.choice(CHARS) for _ in range(n))


def case(rng, stdin, opts=None, files=None, **kw):
    if opts is None: opts, files = conf(rng)
    inl = rng.random() < 0.4
    argv = list(opts)
    if not inl: argv.insert(rng.choice([0, len(argv)]), b"--inline")
    d = {"argv": argv, "files": files or {}, "stdin": stdin, "home": NOHOME, "inlinebin": inl}
    d.update(kw)
    return d


# ---------------------------------------------------------------- C30

def c30(ctx):
    model(ctx, "MCi_lines", "MCi_utf")
    if ctx.thorough: model(ctx, "MCi_lines_deep", "MCi_utf_deep")
    W, rng = prog.World(ctx), ctx.rng
    # all short streams over a few bytes
    cases = []
    for n in range(0, ctx.n(5, 6)):
        for t in itertools.product((b"A", b".", b"\n", b" ", b"_", b"\xc3"), repeat=n):
            if n > 2 and rng.random() > ctx.n(0.06, 0.35): continue
            cases.append(case(rng, b"".join(t)))
    W.check(cases, "short streams")
    cases = []
    for _ in range(ctx.n(600, 8000)):
        k = rng.randint(1, 12)
        ls = [rng.choice([b"", b".", b"..", b"...", b" ", b"_", b"-", b". ", b".a", text(rng, rng.randint(1, 3)), text(rng, rng.randint(1, 12)), text(rng, rng.randint(1, 60))]) for _ in range(k)]
        for i in range(1, k):
            # much like the line before
            if ls[i - 1] and rng.random() < 0.12: ls[i] = scen.alike(rng, ls[i - 1]).replace(b"\n", b"n")
        t = b"\n".join(ls) + (b"\n" if rng.random() < 0.7 else b"")
        cases.append(case(rng, t, slow=rng.choice([1, 3, 7, 50]) if rng.random() < 0.05 and len(t) < 60 else 0))
    W.check(cases, "random lines")
    # many lines
    cases = []
    for size in (4090, 4096, 4100, 8192, 9000) if ctx.thorough else (4096, 5000):
        for _ in range(ctx.n(2, 6)):
            t = b""
            while len(t) < size: t += text(rng, rng.randint(0, 20)) + b"\n"
            cases.append(case(rng, t[:size + rng.randint(-2, 2)]))
    cases.append(case(rng, b"\n" * 1500)); cases.append(case(rng, b".\n..\n" * 200)); cases.append(case(rng, b"A\n" * 800))
    W.check(cases, "many lines")
    # lines that just fit
    cases = []
    for n in (254, 255, 256, 511, 512, 1000, 1005, 1006, 1007):
        for end in (b"", b"\n", b"\nA b\n", b"\n\n.."):
            cases.append(case(rng, bytes(rng.choice(b"aB _-.&") for _ in range(n)) + end))
    W.check(cases, "lines that just fit")
    # a name cleaned in a file system and in a stream: both must be the specified one
    cases = []
    for _ in range(ctx.n(120, 1500)):
        names = set()
        while len(names) < 6:
            n = text(rng, rng.randint(1, 10)).replace(b"/", b"").replace(b"\n", b"")[:200]
            if n and n not in (b".", b".."): names.add(n)
        o, f = conf(rng)
        names = sorted(names)
        cases.append(case(rng, b"\n".join(names) + b"\n", o, f))
        cases.append({"argv": o + [b"-v", b"--"] + names, "files": f, "home": NOHOME, "tree": [(n, "f", None) for n in names]})
    W.check(cases, "the same names as files and as lines")
    # non-default tables through the locale, file arguments
    cases = []
    lang = b"start de\n0xe4 ae\nend\nstart en\n0xe4 a\nend\nstart\n0xe4 x\nend\n"
    for loc in ("C", "de_DE.utf8", "en_US.utf8", "C.utf8"):
        for s in (b"utf_8", b"iso8859_1"):
            cases.append(case(rng, b"\xc3\xa4 \xe4\n", [b"-f", b"@TOP@/rc"], {"@TOP@/rc": b"sequence default { %s { filename \"@TOP@/l\"; }; };" % s, "@TOP@/l": lang}, locale=loc))
    W.check(cases, "locales")


# ---------------------------------------------------------------- C31

BUF = 1007
MULTI = [b"\xc3\xa4", b"\xe2\x80\x93", b"\xf0\x9f\x98\x80", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xe2\x80", b"\xf0\x9f\x98", b"\xf0", b"\xc3", b"\x80\x80\x80\x80\x80\x80\x80\x80", b"\xc3\xa4\x80\x80", b"\xff", b"\xfe\x80", b"\xf0\x9f\xff\x80", b"\xe2\xff", b"\xc3\xff\xa4",
         b"\xc3\xc3\xa4", b"\xe2\xc3\xa4", b"\xf0\xe2\x80\x93", b"\xfc\x84\x80", b"\xfc\x84\x80\x80\x80\x80\x80", b"__--", b" - ", b"%41", b"A%", b"..", b"\xc3\xa4\xc3\xa4\xc3\xa4", b"\xf0\x9f\x98\n", b"\n", b"\n\n", b"\xe2\n", b"\xe2\x80"]


def filler(rng, n, kind=0):
    if kind == 0: return bytes(97 + (i * 7) % 26 for i in range(n))
    if kind == 1: return bytes(rng.choice(b"aB _-.&(") for _ in range(n))
    return b"\xc3\xa4" * (n // 2) + b"z" * (n % 2)


def c31(ctx):
    model(ctx, "MCi_wide", "MCi_utf")
    if ctx.thorough: model(ctx, "MCi_wide_deep", "MCi_utf_deep")
    W, rng = prog.World(ctx), ctx.rng
    cases = []
    tails = [b"", b"\n", b"tail\n", b"tail", b"\nnext line\n", b"\xc3\xa4\n"]
    for m in MULTI:
        for off in range(-len(m) - 1, 3):
            for _ in range(ctx.n(1, 4)):
                for o, f in (([b"-s", b"utf_8-only"], {}), conf(rng)):
                    t = filler(rng, BUF + off, rng.choice([0, 0, 1])) + m + rng.choice(tails)
                    cases.append(case(rng, t, o, f))
    W.check(cases, "everything at the first boundary")
    cases = []
    for _ in range(ctx.n(150, 2500)):
        t = b""
        for k in range(rng.randint(2, 3 if not ctx.thorough else 5)):
            # the pieces may have shifted by a completed character: hit the next boundary roughly
            m = rng.choice(MULTI[:27])
            t += filler(rng, max(0, BUF * (k + 1) + rng.randint(-8, 12) - len(t)), rng.choice([0, 0, 1])) + m
        t += rng.choice(tails)
        cases.append(case(rng, t))
    W.check(cases, "several boundaries in one line")
    cases = []
    for n in list(range(1000, 1016)) + [2012, 2013, 2014, 2015, 2016, 3020, 3021, 3022]:
        for end in (b"", b"\n", b"\n\n", b"\nx"):
            if not ctx.thorough and rng.random() < 0.3: continue
            cases.append(case(rng, filler(rng, n, rng.choice([0, 1])) + end))
    for shift in range(0, 6):
        for m in (b"\xc3\xa4", b"\xe2\x80\x93", b"\xf0\x9f\x98\x80", b"\xfc\x84\x80\x80\x80\x80"):
            t = b"a" * shift + m * ((2100 if not ctx.thorough else 5200) // len(m))
            cases.append(case(rng, t + rng.choice([b"", b"\n"]), [b"-s", b"utf_8-only"], {}))
            cases.append(case(rng, t + b"\n", [b"-f", b"@TOP@/rc"], {"@TOP@/rc": b"sequence default { utf_8 { filename \"@TOP@/t.tbl\"; }; };", "@TOP@/t.tbl": TBL}))
    for b in (b"\x80", b"\xff", b"\xc3", b"\xfc", b" ", b"_", b".", b"%", b"%4"):
        cases.append(case(rng, b * (2100 // len(b))))
    W.check(cases, "lengths and shifts")
    # several long and short lines, at other offsets of the stream
    cases = []
    for _ in range(ctx.n(25, 250)):
        t = b""
        for _ in range(rng.randint(2, 4)):
            t += rng.choice([b"", b"short\n", text(rng, 5) + b"\n", b"x" * rng.randint(0, 90)])
            m = rng.choice(MULTI)
            t += filler(rng, rng.choice([10, BUF + rng.randint(-7, 2), BUF * 2 + rng.randint(-7, 6)]), rng.choice([0, 1, 2])) + m + rng.choice([b"\n", b""])
        cases.append(case(rng, t, slow=rng.choice([0, 0, 0, 300, 1007])))
    W.check(cases, "long and short lines mixed")
    # the same through file arguments
    cases = []
    for _ in range(ctx.n(40, 400)):
        tree = [(b"f%d" % k, "f", filler(rng, BUF + rng.randint(-8, 3), rng.choice([0, 1])) + rng.choice(MULTI) + rng.choice(tails)) for k in range(2)]
        o, f = conf(rng)
        cases.append({"argv": o + [b"--inline", b"f0", b"f1"], "files": f, "tree": tree, "data": 1, "home": NOHOME})
    W.check(cases, "long lines in files")


# ---------------------------------------------------------------- C32

def c32(ctx):
    model(ctx, "MCi_lines")
    W, rng = prog.World(ctx), ctx.rng
    tree = [(b"A b", "f", b"Line one\nLine  two\n"), (b"no newline", "f", b"x & y"), (b"empty", "f", b""), (b"dir x", "d", None), (b"dir x/In side", "f", b"in side\n"), (b"ln", "l", b"A b"), (b"ld", "l", b"dir x"), (b"dang", "l", b"nowhere"),
            (b"locked", "f", b"secret\n"), (b"-dash", "f", b"Dash Dash\n"), (b".hid den", "f", b"Hid den\n"), (b"{arch}", "f", b"arch arch\n"), (b"loop", "l", b"loop"), (b"dots", "f", b".\n..\n...\n. a\n")]
    args = [b"A b", b"no newline", b"empty", b"dir x", b"dir x/In side", b"ln", b"ld", b"dang", b"locked", b"missing", b"dir x/missing", b"A b/x", b".hid den", b"{arch}", b"./A b", b"dir x/../A b", b"dir x/", b".", b"..", b"dots", b"", b"-", b"a" * 300, b"ld/In side", b"nodir/x"]
    opts = [[], [b"-r"], [b"-n"], [b"-v"], [b"--special"], [b"-rn"], [b"-rv", b"--special"], [b"-nv"]]

    def one(av, o, **kw):
        inl = rng.random() < 0.3
        a = list(o) + ([] if inl else [b"--inline"])
        if rng.random() < 0.3: a, av = a + [b"--"], list(av) + rng.choice([[], [b"-dash"], [b"-r"]])
        d = {"argv": a + list(av), "tree": tree, "stdin": b"From Stdin\n", "data": 1, "perm": [(b"locked", 0)], "home": NOHOME, "inlinebin": inl}
        d.update(kw)
        return d
    cases = []
    for a in args:
        for o in opts:
            if not ctx.thorough and o and rng.random() < 0.4: continue
            cases.append(one([a], o))
    W.check(cases, "one argument of every kind")
    cases = []
    for _ in range(ctx.n(300, 4000)):
        n = rng.choice([0, 2, 2, 3, 4, 6])
        o, f = conf(rng)
        av = [rng.choice(args) for _ in range(n)]
        x = one(av, rng.choice(opts) + o, files=f)
        if rng.random() < 0.3 and b"--" not in x["argv"]: rng.shuffle(av); x["argv"] = av + rng.choice(opts) + o + [b"--inline"]
        if rng.random() < 0.15: x["cwd"] = b"dir x"
        cases.append(x)
    W.check(cases, "several arguments")
    cases = []
    for o in opts:
        for st in (b"", b"A b\n", b"A b\nno newline\ndir x\n", b"dir x/In side\n/\n", b"A b"):
            cases.append(one([], o, stdin=st))
    cases = [c for c in cases if b"-dash" not in c["argv"] and c["argv"][-1:] != [b"-r"] or True]
    W.check(cases, "standard input naming files")
    # many files, large files
    cases = []
    for k in (30, 200) if ctx.thorough else (30,):
        t = [(b"f %03d" % i, "f", b"Line %d\n" % i if i % 3 else b"Line %d" % i) for i in range(k)]
        cases.append({"argv": [b"--inline"] + [n for n, _, _ in t] + [b"missing"], "tree": t, "data": 1, "home": NOHOME, "stdin": b"X\n"})
    W.check(cases, "many files")


CHECKS = {"C30": c30, "C31": c31, "C32": c32}
