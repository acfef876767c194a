"""C33: the command line; C34: generate-builtin-table; C35: escape-utf-8."""
import itertools, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import common, prog, tables, checks_table

NOHOME = b"@TOP@/nohome"
TREE = [(b"A b", "f", b"Line One\n"), (b"c d", "d", None), (b"c d/E f", "f", b"2"), (b"c d/g h", "d", None), (b"c d/g h/I j", "f", b"x"), (b"ok", "f", b"3"), (b"p q", "p", None), (b"l k", "l", b"A b"),
        (b"-x y", "f", b"Dashed\n"), (b"-r", "f", b"r\n"), (b"-", "f", b"single\n"), (b"--", "f", b"d\n"), (b"utf_8", "f", None), (b"n n", "f", b"in \xc3\xa4 n\n")]
RC = b"sequence default { lower; };\nsequence x { safe; };\nsequence utf_8 { utf_8; safe; };\n"
FLAGS = [b"-r", b"-n", b"-v", b"-L", b"--inline", b"--special", b"--dry-run", b"--verbose", b"--recursive"]
ABBR = [b"--i", b"--inl", b"--d", b"--dry", b"--dry-", b"--v", b"--verb", b"--r", b"--rec", b"--s", b"--spec", b"--he", b"--h"]
ODD = [b"-z", b"-1", b"-?", b"-:", b"-W", b"-W x", b"--nope", b"--", b"-", b"--=", b"---", b"--inline=", b"--inline=yes", b"--dry-run=1", b"--d=", b"--recursivee", b"--Recursive", b"--dryrun", b"--dry_run", b"-R", b"-N", b"-S", b"--version", b"--f", b"--sequence", b"--remove-trailing", b"", b"-\xc3", b"--\xff", b"-inline", b"-recursive", b"--L", b"--V"]
CLUST = [b"-rn", b"-nr", b"-rv", b"-vrn", b"-rrnn", b"-Lv", b"-rsx", b"-rs", b"-vf", b"-nsutf_8", b"-rzn", b"-rhn", b"-rVn", b"-Vz", b"-zV", b"-r-n", b"-r-", b"-sr", b"-s-r", b"-s=x", b"-vsx", b"-rnvL", b"-fr"]
FILES = [b"A b", b"c d", b"ok", b"missing", b".", b"n n", b"l k", b"p q"]
WITHARG = [b"-s", b"-f", b"-sx", b"-sutf_8", b"-f@TOP@/rc", b"-f@TOP@/none", b"-sno", b"-s ", b"-sdefault"]


def c33(ctx):
    common.model_check(ctx, "MC_Cli", "MCo_cli.cfg")
    if ctx.thorough: common.model_check(ctx, "MC_Cli", "MCo_cli_deep.cfg")
    W, rng = prog.World(ctx), ctx.rng

    def case(argv, **kw):
        d = {"argv": list(argv), "files": {"@TOP@/rc": RC, "../../c/r": RC}, "home": NOHOME, "tree": TREE, "stdin": b"In Put \xc3\xa4\nQ\n", "data": 1}
        d.update(kw)
        return d
    def sane(c):
        """no FIFO to read from, no directory or file of the tree as configuration"""
        av = c["argv"]
        inl = c.get("inlinebin") or "argv0" in c or any(a.startswith(b"--i") for a in av)
        if inl and b"p q" in av: return False
        for i, a in enumerate(av):
            if a[:1] == b"-" and a[:2] != b"--" and b"f" in a:
                arg = a[a.index(b"f") + 1:] or (av[i + 1] if i + 1 < len(av) else b"")
                if arg in (b".", b"..") or arg in [n for n, _, _ in TREE]: return False
        # the configuration file is outside of the tree: it may only be named as one
        want = over = False
        for a in av:
            if want: want = False; continue
            if over or a[:1] != b"-" or len(a) < 2:
                if b"@TOP@" in a: return False
                over = over or bool(c.get("posix"))
            elif a == b"--": over = True
            elif a[:2] != b"--":
                k = [i for i, x in enumerate(a) if x in b"sf"]
                want = bool(k) and k[0] == len(a) - 1
        return True
    check = lambda cs, name: W.check([c for c in cs if sane(c)], name)
    every = FLAGS + ABBR + ODD + CLUST + FILES[:4] + WITHARG + [b"-h", b"-V", b"--help"]
    cases = [case([])] + [case([], inlinebin=True)]
    for a in every:
        cases += [case([a]), case([a], inlinebin=True), case([a, b"A b"]), case([b"A b", a]), case([b"c d", a, b"A b"]), case([a], posix=True)]
        cases.append(case([b"A b", a], posix=True))
        cases.append(case([b"--", a]))
        cases.append(case([b"A b", b"--", a, b"-r", b"-x y"]))
    check(cases, "every argument alone, with a file, after --")
    cases = []
    for a, b in itertools.product(every, repeat=2):
        if rng.random() < ctx.n(0.1, 1.0):
            cases.append(case([a, b] + ([b"c d"] if rng.random() < 0.7 else []), posix=rng.random() < 0.1, inlinebin=rng.random() < 0.15))
    check(cases, "pairs")
    cases = []
    for _ in range(ctx.n(700, 9000)):
        pool = rng.choice([FLAGS + FILES, FLAGS + ABBR + FILES + WITHARG, every, CLUST + FILES + FLAGS, FLAGS + FILES + WITHARG + [b"--"]])
        argv = [rng.choice(pool) for _ in range(rng.randint(1, 7))]
        argv = [b"@TOP@/rc" if i and argv[i - 1] in (b"-f", b"-vf") and rng.random() < 0.8 else x for i, x in enumerate(argv)]
        argv = [rng.choice([b"x", b"utf_8", b"lower"]) if i and argv[i - 1] in (b"-s", b"-rs") and rng.random() < 0.8 else x for i, x in enumerate(argv)]
        cases.append(case(argv, posix=rng.random() < 0.12, inlinebin=rng.random() < 0.2, dseq=rng.choice([None, None, b"x", b"nope"])))
    check(cases, "random argument lists")
    # the same request in all orders and spellings
    cases = []
    for parts in ([[b"-r"], [b"-n"], [b"-v"], [b"-s", b"x"], [b"-f", b"@TOP@/rc"], [b"c d"], [b"A b"]], [[b"--inline"], [b"-s", b"utf_8"], [b"n n"], [b"-v"]], [[b"-L"], [b"-v"], [b"-f", b"@TOP@/rc"], [b"-s", b"zz"]],
                  [[b"--special"], [b"-r"], [b"-n"], [b"."]]):
        perms = list(itertools.permutations(parts))
        for p in rng.sample(perms, min(len(perms), ctx.n(30, 400))):
            argv = []
            for x in p:
                if len(x) == 2 and rng.random() < 0.5: x = [x[0] + x[1]]
                if x == [b"-r"]: x = [rng.choice([b"-r", b"--recursive", b"--r", b"-rr"])]
                if x == [b"-n"]: x = [rng.choice([b"-n", b"--dry-run", b"--dr"])]
                if x == [b"-v"]: x = [rng.choice([b"-v", b"--verbose", b"--v"])]
                argv += x
            cases.append(case(argv))
    check(cases, "all orders and spellings")
    # under which names the program is inline-detox
    cases = []
    for a0 in ("inline-detox", "/x/inline-detox", "./inline-detox", "a/inline-detox", "detox", "xinline-detox", "inline-detox2", "inline-detox/detox", "INLINE-DETOX", "inline_detox", "-inline-detox"):
        for av in ([], [b"n n"], [b"-r", b"c d"], [b"-h"], [b"-z"], [b"-V"], [b"-L"], [b"-s", b"utf_8"], [b"missing"]):
            cases.append(case(av, argv0=a0))
    check(cases, "program names")


# ---------------------------------------------------------------- C34

NAMES = ["safe", "iso8859_1", "unicode", "cp1252"]
LOADER = re.compile(rb"load_builtin_(\w+?)_table\s*\(")


def run_gen(job):
    """In a worker: generate-builtin-table on one table file."""
    tp = os.path.join(common.WORK, job["fname"])
    with open(tp, "wb") as f: f.write(job["text"])
    env = common.base_env()
    for k in ("LC_ALL", "LC_CTYPE", "LANG"):
        env.pop(k, None)
        if job["env"].get(k) is not None: env[k] = job["env"][k]
    r = common.run([job["gen"], tp], cwd=common.WORK, env=env, timeout=120)
    os.unlink(tp)
    return {"code": r.code, "sig": r.sig, "err": r.err[-400:], "out": r.out}


class GenTables(tables.Tables):
    """Tables that went through generate-builtin-table and the C compiler into the program"""

    def __init__(self, ctx, flavour="plain"):
        super().__init__(ctx, flavour)
        self.gen = common.build(ctx, "generate_builtin_table", flavour)
        self.srcd = common.prepare_sources(ctx)
        self.n = 0

    def compile(self, gens):
        """gens: up to four generated sources; the program with them, or None and the compiler's complaint"""
        self.n += 1
        d = self.ctx.sub("gen-%d" % self.n)
        src = b'#include "config.h"\n#include "table.h"\n#include "builtin_table.h"\n'
        for name, g in zip(NAMES, gens):
            if g is None: src += b"table_t *load_builtin_%s_table(void) { return 0; }\n" % name.encode(); continue
            m = LOADER.search(g)
            if not m: return None, "no loader function in the generated source"
            src += re.sub(rb"builtin_%s(?=_(rows|table)\b)" % re.escape(m.group(1)), b"builtin_" + name.encode(), g) + b"\n"
        c = os.path.join(d, "builtin_table.c")
        with open(c, "wb") as f: f.write(src)
        fl = common.FLAVOURS[self.flavour]
        o = os.path.join(d, "builtin_table.o")
        r = subprocess.run(["gcc", "-w", "-DHAVE_CONFIG_H", "-I" + self.srcd] + common.EXTRA_DEFS + fl + ["-c", c, "-o", o], capture_output=True)
        if r.returncode: return None, r.stderr[-600:].decode("latin-1")
        objd = self.ctx.sub("obj-%s" % self.flavour)
        objs = [o if s == "builtin_table.c" else os.path.join(objd, s[:-2] + ".o") for s in common.prog_sources(self.srcd, "detox")]
        exe = os.path.join(d, "detox")
        r = subprocess.run(["gcc"] + fl + objs + ["-lm", "-o", exe], capture_output=True)
        if r.returncode: return None, r.stderr[-600:].decode("latin-1")
        os.chmod(exe, 0o755); os.chmod(d, 0o755)
        return exe, ""

    def fill(self, cases):
        for c in cases:
            c.update(gen=self.gen, shim=self.shim, sys=self.sys)
            c.setdefault("env", {"LC_ALL": "C"})
            c.setdefault("fname", "t.tbl")
        gens = common.pmap(self.ctx, run_gen, cases)
        res = [None] * len(cases)
        good = []
        for k, g in enumerate(gens):
            if g["code"] or g["sig"]: res[k] = {"code": g["code"], "sig": g["sig"], "err": g["err"], "ok": False, "outs": None}
            else: good.append(k)
        groups = [good[i:i + 4] for i in range(0, len(good), 4)]
        with ThreadPoolExecutor(common.CPUS) as ex:
            exes = list(ex.map(lambda g: self.compile([gens[k]["out"] for k in g] + [None] * (4 - len(g))), groups))
        todo = []
        for g, (exe, why) in zip(groups, exes):
            for k, name in zip(g, NAMES):
                if exe is None:
                    one, why1 = self.compile([gens[k]["out"], None, None, None])
                    if one is None:
                        self.ctx.violation("the generated source does not compile: %s; table %r" % (why1[:300], cases[k]["text"][:200]), {"kind": "gen", "case": tables.strip(cases[k]), "source": gens[k]["out"]})
                        res[k] = {"code": 0, "sig": 0, "err": b"", "ok": True, "outs": [b"?"] * len(cases[k]["probes"])}
                        continue
                    cases[k].update(exe=one, builtin="safe")
                else: cases[k].update(exe=exe, builtin=name)
                todo.append(k)
        for k, r in zip(todo, common.pmap(self.ctx, tables.run_table, [cases[k] for k in todo])): res[k] = r
        for exe, _ in exes:
            if exe: os.unlink(exe)
        return res

    def crashed(self, r):
        return r["sig"] != 0 or (not r["ok"] and r["code"] == 0)


def unicode_only(t):
    """no value beyond the last code point: the tool makes an array that long"""
    return all((int(m, 16) if m[:2].lower() == b"0x" else int(m)) <= 0x10ffff for m in tables.NUMRE.findall(t))


def c34(ctx):
    rng = ctx.rng

    def table_case(langs, env):
        while True:
            c = checks_table.table_case(ctx, rng, langs, env)
            if unicode_only(c["text"]): return c
    common.model_check(ctx, "DetoxHash", "MCh_hash.cfg")
    T = GenTables(ctx)
    cases = []
    vals = [b"x", b'""', b"''", b'"a b"', b"\\", b"\\\\", b'"\\"', b"'\"'", b"'say \"x\"'", b"\\n", b"\\x41", b"\\u00e4", b"\\0", b"%s", b"%d%n", b"??=", b"??/", b"/*", b"*/", b"//", b'"\xc3\xa4"', b"\xff", b"\xe4", b"\x01", b"\x7f", b'"\t"', b'"a\rb"', b"a" * 300, b"v" * 1000, b'"#"', b"'", b"{", b"};", b"\\\"", b"'\\\"'", b"\\'"]
    for v in vals:
        cases.append(checks_table.fixed(b"start\n65 %s\n66 b\nend\n" % v, rng.choice(["utf_8", "safe"])))
        cases.append(checks_table.fixed(b"default %s\nstart\n65 a\nend\n" % v, "utf_8", (0x20ac, 0x10ffff)))
        cases.append(checks_table.fixed(b"default %s\nstart\n0xe4 %s\n0xff c\nend\n" % (v, rng.choice(vals)), "iso8859_1"))
    for t in (b"", b"start\nend\n", b"default x\n", b"default x\nstart\nend\n", b"start\n0 x\nend\n", b"start\n65 a\n0 b\n66 c\nend\n", b"start\n65 a\n65 b\nend\n", b"default a\ndefault b\nstart\n1 x\nend\n", b"start\n0x10ffff m\n1 n\nend\n", b"start\n1 a\nend\nstart\n1 b\n2 c\nend\n", b"65 out\nstart\n66 in"):
        for cl in ("utf_8", "safe"): cases.append(checks_table.fixed(t, cl, (0x10ffff,)))
    cases = [c for c in cases if tables.sane(c["text"])]
    T.check(cases, "particular values")
    cases = [table_case((None,), {"LC_ALL": "C"}) for _ in range(ctx.n(160, 2500))]
    T.check(cases, "random tables")
    cases = []
    for _ in range(ctx.n(24, 300)):
        cases.append(table_case((None, b"de", b"en", b"C"), rng.choice([{"LC_ALL": "C"}, {"LC_ALL": "de_DE.utf8"}, {"LANG": "en_US.utf8"}])))
    T.check(cases, "tables with languages")
    cases = []
    for n in [1, 2, 255, 256, 257, 499, 500, 501, 511, 512, 513, 1024, 1500] + ([4000, 12000] if ctx.thorough else []):
        for mode in ("dense", "random", "multiples", "few") if ctx.thorough or n < 300 else ("dense", rng.choice(["random", "multiples"])):
            rows = [(k, v) for k, v in checks_table.big(ctx, rng, n, mode) if k <= 0x10ffff]
            ks = sorted({k for k, _ in rows})
            if not ks: continue
            keys = rng.sample(ks, min(len(ks), 250)) + [k for k in {k + d for k in rng.sample(ks, min(len(ks), 40)) for d in (1, 256, 512, n)} if 0 < k <= 0x10ffff and k not in (10, 46)]
            cases.append({"rows": rows, "default": rng.choice([None, b"?"]), "keys": keys})
    T.check_map(cases, "large tables")
    # the shipped tables, generated anew
    cases = []
    for n, cl in (("safe", "safe"), ("iso8859_1", "iso8859_1"), ("cp1252", "iso8859_1"), ("unicode", "utf_8")):
        p = os.path.join(common.REPO, "table", n + ".tbl")
        cases.append(dict(checks_table.fixed(open(p, "rb").read(), cl, [0x2013, 0x20ac, 0xfffd, 0xff01, 0x1f600]), fname=n + ".tbl"))
    T.check(cases, "the shipped tables")
    A = GenTables(ctx, "asan")
    A.check([table_case((None,), {"LC_ALL": "C"}) for _ in range(ctx.n(16, 200))], "random tables, instrumented")


# ---------------------------------------------------------------- C35

def run_esc(job):
    r = common.run([job["exe"]], stdin=job["in"], timeout=120)
    return {"out": r.out, "exit": r.code, "sig": r.sig, "err": r.err[-600:]}


def c35(ctx):
    rng = ctx.rng
    common.model_check(ctx, "MC_Escape", "MCe_esc.cfg")
    common.model_check(ctx, "MC_Escape", "MCe_utf.cfg")
    if ctx.thorough:
        common.model_check(ctx, "MC_Escape", "MCe_esc_deep.cfg")
        common.model_check(ctx, "MC_Escape", "MCe_utf_deep.cfg")
    exe = common.build(ctx, "escape_utf_8")

    def check(ins, name, maps=()):
        jobs = [{"exe": exe, "in": i} for i in ins]
        frm = [(a, b) for a, b in maps]
        jobs += [{"exe": exe, "in": b"".join(tables.enc(v) + b"\n" for v in range(a, b))} for a, b in frm]
        res = common.pmap(ctx, run_esc, jobs)
        recs = []
        for k, (j, r) in enumerate(zip(jobs, res)):
            if k < len(ins): recs.append({"id": k, "kind": "text", "in": list(j["in"]), "out": list(r["out"]), "exit": r["exit"], "sig": r["sig"]})
            else:
                a, b = frm[k - len(ins)]
                ls = r["out"].split(b"\n")[:-1]
                if len(ls) != b - a:
                    recs.append({"id": k, "kind": "text", "in": list(j["in"]), "out": list(r["out"]), "exit": r["exit"], "sig": r["sig"]})
                else: recs.append({"id": k, "kind": "map", "from": a, "outs": [list(x) for x in ls], "exit": r["exit"], "sig": r["sig"]})
        ctx.family(name, len(recs), bytes=sum(len(j["in"]) for j in jobs), codepoints=sum(b - a for a, b in frm))
        for i in ins[:2]: ctx.sample({"family": name, "in": i[:120]}, 8)
        w = lambda r: 100 + (len(r["in"]) if r["kind"] == "text" else 2 * len(r["outs"]))
        bad, _ = common.validate(ctx, "TraceEscape", "TraceEscape.cfg", recs, weight=w)
        if not bad: return
        sel = [r for r in recs if r["id"] in bad][:30]
        bad2, out = common.validate(ctx, "TraceEscape", "TraceEscape.cfg", sel, diag=True, weight=w)
        diags = {d["tid"]: bytes(d["want"]) for d in common.printed(out, "DIAG")}
        for r in sel:
            if r["id"] not in bad2: continue
            k = r["id"]
            got = res[k]["out"]
            a, b = prog.diffpart(got, diags.get(k, b""))
            what = "escape-utf-8 wrote %r, specified %r" % (a, b) if r["kind"] == "text" else diags.get(k, b"").decode("latin-1")
            ctx.violation("%s: %s (exit %d signal %d)" % (name, what, r["exit"], r["sig"]), {"kind": "escape", "in": jobs[k]["in"], "out": got, "specified": diags.get(k)})

    pieces = [bytes([b]) for b in range(1, 256)] + [b"\xc3\xa4", b"\xe2\x80\x93", b"\xf0\x9f\x98\x80", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xef\xbf\xbf", b"\xf0\x90\x80\x80", b"\xc2\x80", b"\xc1\xbf",
              b"\\x41", b"\\u00e4", b"??=", b"%s", b"_", b"1", b"a", b"\x01" + b"1"]
    single = pieces + [a + b for a in (b"\x01", b"\\", b"\xc3", b"?", b"\x7f", b"\xe2\x80") for b in pieces]
    check([b"\n".join(single[i:i + 16]) + b"\n" for i in range(0, len(single), 16)] + rng.sample(pieces, 40) + [b"", b"\n", b"\n\n", b".", b"..\n."], "single characters")
    check([b"".join(rng.choice(pieces) for _ in range(rng.choice([20, 60, 120]))) + rng.choice([b"", b"\n"]) for _ in range(ctx.n(150, 4000))], "random text")
    check([bytes(rng.choice(b"ab\x01?\\") for _ in range(1007 + rng.randint(-6, 2))) + rng.choice(pieces[250:]) + rng.choice(pieces) + b"z\n" for _ in range(ctx.n(40, 400))], "long lines")
    step = 1024
    maps = [(a, a + step) for a in range(0x400, 0x110000, step)]
    if not ctx.thorough: maps = [m for m in maps if m[0] < 0x3000 or m[0] in (0xd400, 0xd800, 0xdc00, 0xe000, 0xfc00, 0x10000, 0x1f400, 0xffc00, 0x10fc00)] + rng.sample(maps, 60)
    check([], "code points", [(1, 10), (11, 0x400)] + maps)
    # the table the tool was generated from
    tbl = open(os.path.join(common.REPO, "table", "c_escape.tbl"), "rb").read()
    T = tables.Tables(ctx)
    vs = [v for v in range(1, 128) if v not in (10, 46)]
    c = {"text": tbl, "cleaner": "utf_8", "probes": [bytes([v]) for v in vs]}
    r = T.fill([c])[0]
    recs = [{"id": v, "kind": "map", "from": v, "outs": [list(o)], "exit": r["code"], "sig": r["sig"]} for v, o in zip(vs, r["outs"] or [b"?"] * len(vs))]
    ctx.family("table/c_escape.tbl", len(recs))
    bad, _ = common.validate(ctx, "TraceEscape", "TraceEscape.cfg", recs)
    for v in sorted(bad):
        o = bytes(recs[vs.index(v)]["outs"][0])
        ctx.violation("table/c_escape.tbl writes character 0x%02x as %r, escape-utf-8 is specified to write it differently" % (v, o), {"kind": "escape-table", "value": v, "out": o})


CHECKS = {"C33": c33, "C34": c34, "C35": c35}
