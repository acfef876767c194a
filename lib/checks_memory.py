"""C19: every read and write of the programs stays in memory that is theirs, and they end by themselves.

Instrumented (address and undefined-behaviour sanitizer; memory sanitizer) builds of all four programs; names that use up what is
reserved come from the memory model, everything else from the generators of the other checks."""
import os, random, re, shutil, subprocess
import common, prog, confgen, tables, checks_table, checks_inline, checks_tools, checks_config, seqs, walk
from common import log

REPORT = re.compile(rb"(ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|SUMMARY: [^\n]*)")


def run_mem(job):
    """In a worker. job: prog, exe, argv, files (path under @W@), stdin, env, tree, shim."""
    w = os.path.join(common.WORK.encode(), b"m")
    os.mkdir(w)
    S = lambda b: b.replace(b"@TOP@", w + b"/c")
    os.mkdir(w + b"/c")
    for p, t in job.get("files", {}).items():
        p = S(p.encode() if isinstance(p, str) else p)
        if p.startswith(prog_sys): p = w + b"/s" + p
        if not p.startswith(w): continue
        prog.put(p, S(t))
    os.mkdir(w + b"/t")
    walk.make_tree(w + b"/t", job.get("tree", ()))
    env = common.base_env({"LC_ALL": "C", "HOME": "/nonexistent", "DSHIM_SYS": os.fsdecode(w + b"/s"), "DSHIM_ROOT": os.fsdecode(w + b"/t")})
    env["LD_PRELOAD"] = job["shim"]
    for k, v in job.get("env", {}).items():
        if v is None: env.pop(k, None)
        else: env[k] = os.fsdecode(S(v)) if isinstance(v, bytes) else v
    r = common.run([job["exe"]] + [S(a) for a in job["argv"]], cwd=w + b"/t", env=env, stdin=job.get("stdin", b""), timeout=job.get("timeout", 60))
    subprocess.run(["chmod", "-R", "u+rwx", os.fsdecode(w)], stderr=subprocess.DEVNULL)
    shutil.rmtree(w)
    sizes = []
    if job.get("names") and not r.sig:
        outs = r.out.split(b"\n")[:-1]
        if len(outs) == len(job["names"]): sizes = [{"o": len(o), "need": n} for o, n in zip(outs, job["needs"])]
    return {"exit": r.code, "sig": r.sig, "err": r.err[-6000:] if r.sig else r.err[-200:], "sizes": sizes}


prog_sys = tuple(p.encode() for p in prog.SYS)


class Mem:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = {p: common.build(ctx, p, "asan") for p in ("detox", "check_table", "generate_builtin_table", "escape_utf_8")}
        self.msan = {p: common.build(ctx, p, "msan") for p in self.exe}
        self.shim = common.build_shim(ctx)

    def check(self, jobs, name):
        if not jobs: return
        ctx = self.ctx
        # reads of memory never written: a build of its own, for some of the runs
        jobs = jobs + [dict(j, msan=True) for j in jobs if ctx.rng.random() < ctx.n(0.2, 1)]
        for j in jobs:
            j.setdefault("prog", "detox")
            j["exe"], j["shim"] = (self.msan if j.get("msan") else self.exe)[j["prog"]], self.shim
            if j.get("inlinebin"): j["exe"] = os.path.join(os.path.dirname(j["exe"]), "inline-detox")
        res = common.pmap(ctx, run_mem, jobs, chunk=4)
        recs = [{"id": k, "prog": j["prog"], "exit": r["exit"], "sig": r["sig"], "sizes": r["sizes"]} for k, (j, r) in enumerate(zip(jobs, res))]
        ctx.family(name, len(recs), names=sum(len(j.get("names", ())) for j in jobs), exits={str(e): sum(1 for r in recs if r["exit"] == e) for e in sorted({r["exit"] for r in recs})})
        for j in jobs[:1]: ctx.sample({"family": name, "program": j["prog"], "argv": j["argv"], "stdin": j.get("stdin", b"")[:100]}, 12)
        bad, _ = common.validate(ctx, "TraceMemory", "TraceMemory.cfg", recs)
        for k in sorted(bad)[:20]:
            r, j = res[k], jobs[k]
            if not r["sig"] and r["exit"] in (0, 1, 2):
                over = [(n, s) for n, s in zip(j["names"], r["sizes"]) if s["o"] > s["need"]]
                what = "writes %d bytes for %r where at most %d are reserved" % (over[0][1]["o"], over[0][0], over[0][1]["need"]) if over else "?"
            elif r["sig"] == 97: what = "; ".join(x.decode("latin-1") for x in REPORT.findall(r["err"])[:3])
            elif r["sig"] == 98: what = "does not end"
            else: what = "ends with exit %d signal %d" % (r["exit"], r["sig"])
            ctx.violation("%s: %s %s %s, input %r: %s" % (name, j["prog"], j["argv"][:8], {a: b[:200] for a, b in list(j.get("files", {}).items())[:2]}, j.get("stdin", b"")[:150], what[:600]),
                          {"kind": "memory", "job": {a: b for a, b in j.items() if a not in ("exe", "shim")}, "result": r})


def spec_cases(ctx):
    """Names that use up what is reserved, from GenCapacity."""
    rc, out = common.tlc(ctx, "GenCapacity", "GenCapacity.cfg")
    cases = common.printed(out, "CASE")
    if not cases: raise common.CheckError("GenCapacity: " + common.brief(out))
    jobs, tight = [], 0
    for c in cases:
        f = c["f"].encode()
        files = {}
        if f in (b"safe", b"iso8859_1", b"utf_8"):
            t = (b"default \"" + b"x" * c["def"] + b"\"\n" if c["def"] >= 0 else b"") + b"start\n" + b"".join(b"0x%x \"%s\"\n" % (r["k"], b"x" * r["n"]) for r in c["rows"]) + b"end\n"
            files["@TOP@/t"] = t
            conf = f + b" { filename \"@TOP@/t\"; };"
        elif f == b"max_length": conf = b"max_length { length %d; };" % c["n"] if c["n"] else b"max_length;"
        elif f == b"wipeup": conf = b"wipeup { remove_trailing; };" if c["n"] else b"wipeup;"
        else: conf = f + b";"
        files["@TOP@/rc"] = b"sequence default { " + conf + b" };\n"
        names = [(bytes(x["s"]), x["out"], x["tight"]) for x in c["names"]]
        names = [x for x in names if b"\n" not in x[0] and x[0]]
        tight += sum(1 for x in names if x[2])
        for i in range(0, len(names), 60):
            part = names[i:i + 60]
            jobs.append({"argv": [b"-f", b"@TOP@/rc", b"--inline"], "files": files, "stdin": b"".join(n + b"\n" for n, _, _ in part), "names": [n for n, _, _ in part], "needs": [o for _, o, _ in part]})
    log("%d cases from the memory model, %d names that use up what is reserved" % (len(cases), tight))
    ctx.cov["models"].append({"module": "GenCapacity", "config": "GenCapacity.cfg", "cases": len(cases), "tight": tight})
    return jobs


def rand_bytes(rng, n, alpha=None): return bytes(rng.choice(alpha) if alpha else rng.randrange(256) for _ in range(n))


FILT = [b"uncgi", b"lower", b"safe", b"safe { filename \"@TOP@/t\"; }", b"iso8859_1", b"iso8859_1 { filename \"@TOP@/t\"; }", b"utf_8", b"utf_8 { filename \"@TOP@/t\"; }", b"wipeup", b"wipeup { remove_trailing; }", b"max_length", b"max_length { length 5; }",
        b"max_length { length 1; }", b"max_length { length 300; }", b"iso8859_1 { builtin \"cp1252\"; }", b"safe { builtin \"unicode\"; }", b"utf_8 { builtin \"safe\"; }"]
ALPHA = b"\x01%%4105fF++..--__##  aAbB\x7f\x80\x80\x9f\xa0\xc0\xc3\xa4\xe2\x82\xac\xf0\x9f\xf8\xfc\xfe\xff"


def conf_text(rng):
    return b"sequence default { " + b"; ".join(rng.choice(FILT) for _ in range(rng.randint(1, 4))) + b"; };\n"


def own_table(rng):
    L = lambda: rng.choice([0, 0, 1, 1, 2, 3, 14, 40])
    t = b""
    if rng.random() < 0.5: t += b"default \"" + b"d" * L() + b"\"\n"
    t += b"start\n"
    for k in rng.sample(list(range(1, 256)) + [0x20ac, 0x4e00, 0x1f600, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff], rng.randint(1, 20)): t += b"0x%x \"%s\"\n" % (k, b"v" * L())
    return t + b"end\n"


def c19(ctx):
    common.model_check(ctx, "MC_Capacity", "MCm_mem.cfg")
    if ctx.thorough: common.model_check(ctx, "MC_Capacity", "MCm_mem_deep.cfg")
    M, rng = Mem(ctx), ctx.rng
    M.check(spec_cases(ctx), "names that use up what is reserved")
    # random filters, tables, lines; also as long lines
    jobs = []
    for _ in range(ctx.n(600, 8000)):
        lines = [rand_bytes(rng, rng.choice([1, 2, 3, 8, 20, 100]), ALPHA) for _ in range(30)]
        if rng.random() < 0.5: lines.append(rand_bytes(rng, rng.choice([255, 1000, 1005, 1006, 1007, 1008, 1009, 2014, 5000]), rng.choice([ALPHA, None, b"\x80", b"\xf0", b"\xc3", b"\xff", b"%", b"_", b".", b"\xc3\xa4", b"\xf0\x80"])))
        rng.shuffle(lines)
        st = b"\n".join(lines) + rng.choice([b"", b"\n"])
        if rng.random() < 0.15: st = st.replace(b"a", b"\x00")
        jobs.append({"argv": [b"-f", b"@TOP@/rc"], "inlinebin": True, "files": {"@TOP@/rc": conf_text(rng), "@TOP@/t": own_table(rng)}, "stdin": st})
    for b in range(0, 256):
        if ctx.thorough or b in (0, 10, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0xfe, 0xfd, 0xf8):
            for n in (1005, 1006, 1007, 1008, 3000): jobs.append({"argv": [b"-s", b"utf_8"], "inlinebin": True, "stdin": bytes([b]) * n})
    for a in (b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xfc\x80\x80\x80\x80", b"\xf0"):
        for k in range(-6, 3):
            for tail in (b"", b"\n", b"\xff", b"\x80" * 10, b"\x00", b"\xffx\xff"): jobs.append({"argv": [b"-s", b"utf_8"], "inlinebin": True, "stdin": b"y" * (1007 + k - len(a)) + a + tail})
    # every sequence, whole or cut short, at every place around the end of what one read brings in
    for a in ("ä".encode(), "€".encode(), b"\xf0\x9f\x98\x80", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xfe\x80\x80\x80\x80\x80\x80"):
        for z in range(1, len(a) + 1):
            for tail in (b"", b"y" * 40, b"\x80" * 9):
                for big in (0, 1) if ctx.thorough else (0,):
                    st = b"".join(b"y" * (k + 4096 * big) + a[:z] + tail + b"\n" for k in range(990, 1030))
                    jobs.append({"argv": [b"-s", b"utf_8"], "inlinebin": True, "stdin": st})
                for k in range(1000, 1026):
                    if not ctx.thorough and tail and k % 3: continue
                    jobs.append({"argv": [b"-s", b"utf_8"], "inlinebin": True, "stdin": b"y" * k + a[:z] + tail})
    M.check(jobs, "lines")
    # tables
    jobs = []
    mk = lambda t, p="detox", env=None: {"prog": p, "argv": [b"-f", b"@TOP@/rc", b"--inline"] if p == "detox" else [b"@TOP@/t"], "stdin": b"Az\xe4\xc3\xa4\x80\xe2\x82\xac\nplain\n" + bytes(range(1, 256)),
                                         "files": {"@TOP@/rc": b"sequence default { %s { filename \"@TOP@/t\"; }; };\n" % rng.choice([b"safe", b"utf_8", b"iso8859_1"]), "@TOP@/t": t}, "env": env or {}}
    for _ in range(ctx.n(700, 9000)):
        t, _k = tables.table_text(rng, langs=(None, b"de", b"en", b"x" * 40, b"C"))
        x = rng.random()
        if x < 0.3: t = confgen.mangle(rng, t)
        elif x < 0.4: t = t.replace(b" ", rng.choice([b"\x00", b"\xff", b"\t" * 100, b" \" ", b"'"]))
        elif x < 0.5:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + rng.choice([b"\"", b"'", b"start ", b"default ", b"0x", b"99999999999999999999 x\n", b"-1 y\n", b"0xffffffff z\n", b"0x80000000 q\n"]) + rand_bytes(rng, rng.choice([1, 10, 500, 1010, 1023, 1024, 1025, 3000]), rng.choice([None, b"q", b"\"", b"'", b" ", b"\\"])) + t[k:]
        p = rng.choice(["detox", "detox", "check_table", "generate_builtin_table"])
        if p == "generate_builtin_table" and not checks_tools.unicode_only(t): p = "check_table"
        jobs.append(mk(t, p, rng.choice([{}, {"LC_ALL": "de_DE.utf8"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": None, "LANG": "en_US.utf8"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "x" * 300}, {"LC_ALL": ""}])))
    for t in (b"", b"\n", b"start", b"start\n", b"start ", b"start \"", b"start '\n", b"default", b"default \"", b"default '", b"start\n1", b"start\n1 ", b"start\n1 \"", b"start\n1 '", b"start\n1 \"\"", b"start\n\n", b"start\nend", b"\x00", b"start\n\x00\n65 x\n", b"start\n65 \x00x\n", b"\"", b"'", b"start\n65 \"x", b"start\n65 'x\n",
              b"start\n1\n2\n3\n", b"start\n" + b"1 a\n" * 3000, b"start\n" + b"".join(b"%d %s\n" % (k, b"w" * (k % 50)) for k in range(1, 1200)), b"start\n65 " + b"v" * 5000, b"default " + b"v" * 5000, b"start " + b"v" * 5000, b"v" * 5000, b"start\n" + b"9" * 5000 + b" x\n", b"start\n65 x\n\n\n\n# c\n\nend\n" * 50):
        for p in ("detox", "check_table", "generate_builtin_table"): jobs.append(mk(t, p))
    M.check(jobs, "table files")
    # configurations
    jobs = []
    for _ in range(ctx.n(800, 9000)):
        t = confgen.spell(rng, confgen.tokens(rng))
        x = rng.random()
        if x < 0.25: t = confgen.mangle(rng, t)
        elif x < 0.45: t = confgen.spell(rng, confgen.broken(rng, confgen.tokens(rng)))
        elif x < 0.7:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + rng.choice([b"\"" + rand_bytes(rng, rng.choice([0, 1, 100, 255, 256, 8190, 8192, 20000])).replace(b"\"", b"") + rng.choice([b"\"", b"", b"\n"]), b"a" * rng.choice([255, 256, 1023, 9000, 17000]), b"\x00", b"\"\x00\"", b"\"a\x00b\"", b"#" + b"c" * 9000, b"9" * 400, b"{" * 300, b"}" * 50, b";" * 300, b"sequence a {" * 60]) + t[k:]
        jobs.append({"argv": rng.choice([[b"-f", b"@TOP@/rc", b"-L", b"-v"], [b"-f", b"@TOP@/rc", b"--inline"], [b"-f", b"@TOP@/rc", b"-r", b"."], [b"-vf", b"@TOP@/rc", b"-s", b"a", b"A b"]]), "files": {"@TOP@/rc": t}, "stdin": b"Ab\xc3\xa4\n", "tree": [(b"A b", "f", None)]})
    for n in (1, 2, 50, 2000):
        jobs.append({"argv": [b"-f", b"@TOP@/rc", b"-L", b"-v"], "files": {"@TOP@/rc": b"sequence x { lower; };\n" * n + b"ignore { filename q; };\n" * n}})
        jobs.append({"argv": [b"-f", b"@TOP@/rc", b"--inline"], "files": {"@TOP@/rc": b"sequence x { " + b"lower; wipeup; " * n + b" };"}, "stdin": b"A__b\n"})
    M.check(jobs, "configurations")
    # trees: names that grow, long paths, many entries, odd arguments
    jobs = []
    nm = lambda: rand_bytes(rng, rng.choice([1, 2, 10, 100, 254, 255]), ALPHA.replace(b"/", b"")) or b"x"
    for _ in range(ctx.n(350, 4000)):
        tree, seen, dirs = [], set(), [b""]
        for _ in range(rng.randint(1, 12)):
            d = rng.choice(dirs)
            n = nm()
            if n in (b".", b"..") or d + n in seen or len(d + n) > 900: continue
            seen.add(d + n)
            if rng.random() < 0.3: tree.append((d + n, "d", None)); dirs.append(d + n + b"/")
            else: tree.append((d + n, "f", None))
        top = [p for p, _, _ in tree]
        argv = rng.choice([[b"-r", b"."], [b"-rv", b".//."], [b"-rn", b"./"], [b"-v"] + [b"./" + p for p in top], [b"-r", b"--special", b"--"] + [rng.choice(top) + rng.choice([b"", b"/", b"//", b"/."]) for _ in range(5)]])
        jobs.append({"argv": [b"-f", b"@TOP@/rc"] + argv, "files": {"@TOP@/rc": conf_text(rng) + (b"ignore { filename \"%s\"; };" % b"CVS" if rng.random() < 0.4 else b""), "@TOP@/t": own_table(rng)}, "tree": tree})
    deep = [(b"/".join([b"d d"] * k), "d", None) for k in range(1, 60)]
    jobs.append({"argv": [b"-rv", b"."], "tree": deep})
    jobs.append({"argv": [b"-r", b"."], "tree": [(b"n %d" % k, "f", None) for k in range(700)]})
    jobs.append({"argv": [b"n %d" % k for k in range(300)], "tree": [(b"n %d" % k, "f", None) for k in range(300)]})
    for a in (b"", b"/", b"//", b".", b"..", b"./", b"../", b"/.", b"x" * 256, b"x" * 5000, b"x/" * 2500, b"no/such", b"\xff", b"-", b"A/", b"/nonexistent/A b", b"./."):
        for o in ([], [b"-r"], [b"-n"], [b"--inline"], [b"-v", b"--special"]):
            if a in (b"/", b"//", b"/.") and o != [b"-n"]: continue      # nothing outside of the scratch directory
            jobs.append({"argv": o + ([b"-n"] if a in (b"..", b"../", b"/", b"//", b"/.") else []) + [a]})
    M.check(jobs, "trees and arguments")
    # environment and command line
    jobs = []
    for v in (None, b"", b"x", b"/" * 300, b"h" * 240, b"@TOP@/" + b"h" * 200, b"h" * 255, b"h" * 256, b"h" * 1000, b"h" * 70000, b"\xff\xfe", b"%s%n"):
        for k in ("HOME", "XDG_CONFIG_HOME", "DETOX_SEQUENCE", "LC_ALL", "LANG", "LC_CTYPE"):
            jobs.append({"argv": [b"-L"], "env": {k: v}})
            jobs.append({"argv": [b"-s", b"utf_8", b"--inline"], "env": {k: v}, "stdin": b"A \xc3\xa4\n"})
    for d in (100, 200, 230, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 254, 255, 256, 257): jobs.append({"argv": [b"-L"], "env": {"HOME": b"/" + b"h" * d, "XDG_CONFIG_HOME": b"/" + b"x" * d}})
    for f in (b"", b".", b"f" * 255, b"f" * 5000, b"\xff", b"/nonexistent", b"@TOP@"): jobs += [{"argv": [b"-f", f, b"-L"]}, {"argv": [b"-f" + f, b"A"]}, {"argv": [b"-s", f, b"-L"]}, {"argv": [b"-s", f, b"--inline"]}]
    for b in (b"safe", b"x" * 5000, b"", b"%s"):
        for w in (b"builtin", b"filename"):
            jobs.append({"argv": [b"-f", b"@TOP@/rc", b"--inline"], "files": {"@TOP@/rc": b"sequence a { safe { %s \"%s\"; }; };" % (w, b)}, "stdin": b"a\n"})
    words = checks_tools.FLAGS + checks_tools.ABBR + checks_tools.ODD + checks_tools.CLUST + checks_tools.WITHARG + [b"-h", b"-V", b"A b", b"dir"]
    for _ in range(ctx.n(150, 3000)):
        jobs.append({"argv": [rng.choice(words) for _ in range(rng.randint(0, 6))], "stdin": b"In\n", "tree": [(b"A b", "f", None), (b"dir", "d", None)], "inlinebin": rng.random() < 0.3})
    for a in ([], [b""], [b"/nonexistent"], [b"."], [b"@TOP@"], [b"a", b"b"], [b"x" * 5000]):
        for p in ("check_table", "generate_builtin_table"): jobs.append({"prog": p, "argv": a})
    M.check(jobs, "environment and command line")
    # escape-utf-8
    jobs = []
    for _ in range(ctx.n(24, 300)):
        jobs.append({"prog": "escape_utf_8", "argv": [], "stdin": b"".join(rand_bytes(rng, rng.choice([1, 5, 60, 1003, 1004, 1005, 1006, 1007, 2100]), rng.choice([ALPHA, None, b"\xf0\x9f\x98\x80", b"\xff"])) + b"\n" for _ in range(8))})
    M.check(jobs, "escape-utf-8")


CHECKS = {"C19": c19}
