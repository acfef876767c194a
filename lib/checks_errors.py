"""C36: listings and files that break off, output that does not fit."""
import errno, os
import common, confgen, prog, scen, checks_walk
from checks_inline import conf, text, NOHOME
from checks_config import TREE
from prog import SYSDATA, SYSCONF

BROKEN = [errno.EIO, errno.EIO, errno.EACCES, errno.ENOENT, errno.EBADF, errno.EOVERFLOW, errno.ENOMEM]
checks_walk.LABELS["C36"] = None
RC = b"sequence default { %s };\n"
TBL = b"default ?\nstart\n0x41 1\n0x20 _\n0x42 xx\nend\n"


def breaking(rng, s, name=None):
    """The listing of one directory (or all of one name) breaks off."""
    dirs = [p.split(b"/")[-1] for p, t, x in s["tree"] if t == "d"]
    a = s["args"][0]
    while a.endswith((b"/.", b"/")) and len(a) > 2: a = a[:-2] if a.endswith(b"/.") else a[:-1]
    s["args"] = [a]
    d = name or rng.choice(dirs + [a.split(b"/")[-1]])
    e = rng.choice(BROKEN)
    s["dfault"] = [(d, e)] + [(x, e) for x in {d.replace(b" ", b"_"), d.lower()} if x != d]


def cut(rng, s):
    """stdout has room for so much only"""
    s["outmax"] = rng.choice([0, 0, 1, rng.randint(1, 200), rng.randint(1, 4000)])
    if "n" in s["opts"]: s["tree"] = s["tree"][:1]; s["args"] = [b"."]


def listings(ctx):
    f = checks_walk.Fam(ctx)
    f.rand("listings that break off", ctx.n(900, 9000), pools=("all",), seqs=range(1, checks_walk.SYSTEMATIC + 1), opts=["rv", "v", "r", "", "rnv"], types="dddfffl", nargs=1, post=breaking)
    scs = []
    for _ in range(ctx.n(40, 400)):
        s = scen.rand(f.rng, pools=("odd", "collide"), seqs=(1,), opts=["rv"], nargs=1, maxent=10, types="ddff")
        s["args"] = [b"."]
        for p, t, x in s["tree"]:
            if t != "d": continue
            for k in range(3):
                one = dict(s, seed=f.rng.randint(0, 999), order=3)
                breaking(f.rng, one, p.split(b"/")[-1])
                scs.append(one)
    f.go("one listing at every place", scs)
    f.rand("output that does not fit", ctx.n(500, 5000), pools=("all",), seqs=(1, 5, 6, 7), opts=["rv", "v", "rv", "nv", "r", "n"], types="ddfffl", nargs=1, post=cut)
    f.rand("output that does not fit, with faults", ctx.n(250, 2500), fault=True, pools=("collide", "odd"), seqs=(1, 6), opts=["rv", "v"], types="ddff", nargs=1, post=cut)


def case(rng, **kw):
    opts, files = conf(rng)
    inl = rng.random() < 0.4
    argv = list(opts)
    if not inl: argv.insert(rng.choice([0, len(argv)]), b"--inline")
    d = {"argv": argv + list(kw.pop("args", ())), "files": files, "home": NOHOME, "inlinebin": inl, "stdin": b""}
    d.update(kw)
    return d


def stream(rng):
    ls = [text(rng, rng.choice([0, 1, 3, 8, 30])) for _ in range(rng.randint(1, 9))]
    if rng.random() < 0.1: ls = [text(rng, rng.randint(100, 700)) for _ in range(rng.randint(2, 9))]
    return b"\n".join(ls) + rng.choice([b"", b"\n", b"\n"])


def spot(rng, s):
    """Where it breaks off: also right at, before and after the end of a line"""
    ends = [i for i in range(len(s)) if s[i:i + 1] == b"\n"]
    x = rng.random()
    if ends and x < 0.4: return max(0, min(len(s), rng.choice(ends) + rng.choice([0, 1, 2])))
    if x < 0.5: return rng.choice([0, len(s)])
    k = rng.randint(0, len(s))
    return k if k - (s[:k].rfind(b"\n") + 1) < 250 else s[:k].rfind(b"\n") + 1


def inline(ctx):
    W, rng = prog.World(ctx), ctx.rng
    cases = []
    for _ in range(ctx.n(400, 4000)):
        s = stream(rng)
        cases.append(case(rng, stdin=s, broken=(spot(rng, s), rng.choice(BROKEN), None)))
    W.check(cases, "standard input that breaks off")
    cases = []
    for _ in range(ctx.n(400, 4000)):
        names = rng.sample([b"in a", b"in_b", b"c", b"d d"], rng.randint(1, 4))
        tree = [(n, "f", stream(rng)) for n in names]
        n, _, s = rng.choice(tree)
        if rng.random() < 0.2: tree.append((b"l", "l", n)); names.append(b"l")
        if rng.random() < 0.3: names.append(b"nope")
        rng.shuffle(names)
        if names.count(n) + names.count(b"l") > 1: names = [x for x in names if x != b"l"]
        cases.append(case(rng, args=[b"--"] + names, tree=tree, data=True, broken=(spot(rng, s), rng.choice(BROKEN), n)))
    W.check(cases, "files that break off")
    cases = []
    for _ in range(ctx.n(60, 600)):
        cases.append(case(rng, stdin_from=rng.choice([b"@TOP@", b"@TOP@/."])))
        tree = [(b"d d", "d", None), (b"f", "f", stream(rng)), (b"l", "l", rng.choice([b"d d", b".", b"./d d/..", b"d d/"])), (b"l2", "l", b"l"), (b"d d/x", "l", b"..")]
        names = [rng.choice([b"l", b"l2", b"f", b"d d", b"d d/x", b"nope", b"l/"]) for _ in range(rng.randint(1, 4))]
        cases.append(case(rng, args=[b"--"] + names, tree=tree, data=True))
    W.check(cases, "directories for input")
    cases = []
    for _ in range(ctx.n(400, 4000)):
        s = stream(rng)
        c = case(rng, stdin=s)
        if rng.random() < 0.4: c = case(rng, args=[b"--", b"in a", b"nope", b"in_b"], tree=[(b"in a", "f", stream(rng)), (b"in_b", "f", s)], data=True)
        if rng.random() < 0.3 and "tree" not in c: c["broken"] = (spot(rng, s), rng.choice(BROKEN), None)
        c["outmax"] = rng.choice([0, 0, 1, rng.randint(1, len(s) + 2), rng.randint(1, len(s) + 2)])
        cases.append(c)
    # larger than what is written at a time
    for _ in range(ctx.n(20, 200)):
        s = b"\n".join(text(rng, 60) for _ in range(rng.randint(60, 120))) + b"\n"
        cases.append(case(rng, stdin=s, outmax=rng.choice([0, 1, 4000, 4096, 4097, rng.randint(1, len(s))])))
    W.check(cases, "output that does not fit (inline)")
    cases = []
    for o in ([b"-h"], [b"-V"], [b"-L"], [b"-L", b"-v"], [b"--inline", b"-h"], [b"--inline", b"-L", b"-v"], [b"--help"], [b"--version"], [b"-v", b"-h"]):
        for inl in (False, True):
            for k in (0, 0, 1, 5, 40, 100, 2000):
                if k and o[-1] in (b"-h", b"--help", b"--version"): continue
                cases.append({"argv": o, "files": {}, "home": NOHOME, "inlinebin": inl, "outmax": k})
    for _ in range(ctx.n(60, 500)):
        cases.append({"argv": [b"-f", b"@TOP@/rc"] + rng.choice([[b"-L"], [b"-L", b"-v"]]), "files": {"@TOP@/rc": confgen.spell(rng, confgen.tokens(rng))}, "home": NOHOME,
                      "outmax": rng.choice([0, 1, rng.randint(1, 300), rng.randint(1, 300)])})
    W.check(cases, "output that does not fit (other)")


def settings(ctx):
    """Configuration and table files"""
    W, rng = prog.World(ctx), ctx.rng
    work = lambda: rng.choice([{"args": [b"."], "tree": TREE}, {"args": [b"--inline"], "stdin": b"A b B\n"}, {"args": [b"-L"]}, {"args": [b"-n", b"-v", b"A b"], "tree": TREE}])
    def make(opts, files, w, **kw):
        d = {"argv": list(opts) + w.get("args", []), "files": files, "home": NOHOME, "stdin": w.get("stdin", b""), "tree": w.get("tree", ())}
        d.update(kw)
        return d
    cases = []
    for _ in range(ctx.n(250, 2500)):
        t = RC % rng.choice([b"lower;", b"safe; wipeup;", b"safe { filename \"@TOP@/t.tbl\"; };", b"utf_8; lower; wipeup { remove_trailing; };"]) + b"ignore { filename \"ok\"; };\n"
        if rng.random() < 0.4: t = b"# " + b"x" * rng.choice([10, 500, 4000, 8190, 9000, 20000]) + b"\n" + t
        k = rng.choice([0, rng.randint(0, len(t)), len(t), rng.randint(max(0, len(t) - 60), len(t))])
        e = rng.choice(BROKEN)
        w = work()
        x = rng.random()
        if x < 0.5: cases.append(make([b"-f", b"@TOP@/rc"], {"@TOP@/rc": t, "@TOP@/t.tbl": TBL}, w, broken=(k, e, b"rc")))
        elif x < 0.75: cases.append(make([], {"@TOP@/h/.detoxrc": t, "@TOP@/t.tbl": TBL, rng.choice(SYSCONF): RC % b"lower;"}, w, broken=(k, e, b".detoxrc"), home=b"@TOP@/h"))
        else: cases.append(make([], {rng.choice(SYSCONF): t, "@TOP@/t.tbl": TBL}, w, broken=(k, e, b"detoxrc")))
    W.check(cases, "configurations that break off")
    cases = []
    for _ in range(ctx.n(250, 2500)):
        t = TBL
        if rng.random() < 0.4: t = b"#\n" * rng.choice([10, 500, 2046, 2048, 4000]) + t
        k = rng.choice([0, rng.randint(0, len(t)), len(t), rng.randint(max(0, len(t) - 30), len(t))])
        e = rng.choice(BROKEN)
        w = work()
        if rng.random() < 0.5: cases.append(make([b"-f", b"@TOP@/rc"], {"@TOP@/rc": RC % rng.choice([b"safe { filename \"@TOP@/t.tbl\"; };", b"lower; utf_8 { filename \"@TOP@/t.tbl\"; }; wipeup;"]), "@TOP@/t.tbl": t}, w, broken=(k, e, b"t.tbl")))
        else:
            ds = rng.sample(SYSDATA, rng.randint(1, 3))
            cases.append(make([b"-f", b"@TOP@/rc"], dict({d + "safe.tbl": t for d in ds}, **{"@TOP@/rc": RC % b"safe;"}), w, broken=(k, e, b"safe.tbl")))
    W.check(cases, "tables that break off")
    cases = []
    for _ in range(ctx.n(120, 800)):
        w = work()
        x = rng.randint(0, 5)
        if x == 0: cases.append(make([b"-f", b"@TOP@/d"], {}, w, asdirs=[b"@TOP@/d"]))
        elif x == 1: cases.append(make([], {}, w, asdirs=[b"@TOP@/h/.detoxrc"], home=b"@TOP@/h"))
        elif x == 2: cases.append(make([], {rng.choice(SYSCONF): RC % b"lower;"}, w, asdirs=[b"@TOP@/x/detox/detoxrc"], xdg=b"@TOP@/x"))
        elif x == 3: cases.append(make([], {}, w, asdirs=[rng.choice(SYSCONF).encode()]))
        elif x == 4: cases.append(make([b"-f", b"@TOP@/rc"], {"@TOP@/rc": RC % rng.choice([b"safe { filename \"@TOP@/d\"; };", b"lower; iso8859_1 { filename \"@TOP@/d\"; };"])}, w, asdirs=[b"@TOP@/d"]))
        else:
            ds = rng.sample(SYSDATA, 2)
            cases.append(make([b"-f", b"@TOP@/rc"], {"@TOP@/rc": RC % b"safe; wipeup;", ds[0] + "safe.tbl": TBL}, w, asdirs=[(ds[1] + "safe.tbl").encode()]))
    W.check(cases, "directories for configurations and tables")


def c36(ctx):
    checks_walk.models(ctx)
    listings(ctx)
    inline(ctx)
    settings(ctx)


CHECKS = {"C36": c36}
