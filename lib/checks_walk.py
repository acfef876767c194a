"""C01-C10: runs over trees of files."""
import errno, itertools
import common, scen, walk
from seqs import *

# what a rejected run is about; a run that was rejected for no reason known here counts for every property
LABELS = {
    "C01": {"clobber", "shouldblock", "changed", "final", "mutation", "outside", "moved", "ghost"},
    "C02": None,
    "C03": {"wrongname", "moved", "outside", "invalid", "untasked", "ghost", "final", "changed", "mutation", "twice"},
    "C04": {"hidden", "untasked", "missed", "silent", "final", "special", "ghost"},
    "C05": {"special", "untasked", "missed", "silent", "changed", "outside", "mutation", "final", "ghost"},
    "C06": {"missed", "untasked", "silent", "args", "ghost", "exit", "final"},
    "C07": {"twice", "untasked", "missed", "wrongname", "ghost", "silent", "final"},
    "C08": {"args", "missed", "exit", "silent", "report", "final", "untasked", "changed"},
    "C09": {"again"},
    "C10": {"report", "silent", "exit", "args"},
}

SYSTEMATIC = 16   # sequences in scen.seqbook()


def model(ctx, *cfgs):
    for c in cfgs: common.model_check(ctx, "MC_Walk", c)


def models(ctx, extra=()):
    name = "MCw_%s.cfg" % ctx.prop
    model(ctx, name)
    if ctx.thorough:
        model(ctx, name.replace(".cfg", "_deep.cfg"), "MCw_witness.cfg", *extra)


def strip_opt(scs, o):
    for s in scs: s["opts"] = s["opts"].replace(o, "")
    return scs


class Fam:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.book = scen.seqbook()
        self.R = walk.Runner(ctx, self.book)
        self.labels = LABELS[ctx.prop]

    def go(self, name, scs, flavour=None):
        scs = list(scs)
        n = 4000
        for i in range(0, len(scs), n):
            self.R.check(scs[i:i + n], self.labels, name)

    def rand(self, name, n, fault=False, ci=False, post=None, **kw):
        out = []
        for _ in range(n):
            s = scen.rand(self.rng, **kw)
            if fault: scen.with_faults(self.rng, s)
            if ci: scen.clean_ci(s)
            if post: post(self.rng, s)
            out.append(s)
        self.go(name, out)

    def small(self, name, limit, *a, post=None, **kw):
        """All small worlds, or a random sample of that many."""
        l = list(scen.small_worlds(*a, **kw))
        if len(l) > limit: l = self.rng.sample(l, limit)
        for s in l:
            s.setdefault("order", self.rng.randint(0, 3)); s.setdefault("seed", self.rng.randint(0, 99))
            if post: post(self.rng, s)
        self.go(name, l)

    def general(self, n, **kw):
        d = dict(seqs=range(1, SYSTEMATIC + 1), opts=["v", "rv", "rnv", "r", "", "n", "rv", "rv"])
        d.update(kw)
        self.rand("general", n, **d)


TT = [b"t t"]
COL4 = [b"a b", b"a_b", b"a  b", b"A B", b"a_B"]


def unknown(rng, s):
    """Some names cannot be looked up, among them names that entries would get."""
    names = [p.rsplit(b"/", 1)[-1] for p, t, x in s["tree"]] or [b"a b"]
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(names)
        if rng.random() < 0.75: n = rng.choice([n.replace(b" ", b"_"), n.replace(b"  ", b"_").replace(b" ", b"_"), n.lower(), b"a_b", b"t_t"])
        out[n] = rng.choice([errno.EIO, errno.EACCES, errno.EOVERFLOW, errno.ENOTDIR, errno.ELOOP, errno.ENOMEM])
    s["lfault"] = sorted(out.items())


def c01(ctx):
    models(ctx)
    model(ctx, "MCw_C01l.cfg")
    f = Fam(ctx)
    f.small("small worlds", ctx.n(2500, 12000), COL4 + [b"a\tb", b"_a b"], "dfl" if ctx.thorough else "df", 3, [TT], [1, 6], ["v", "rv"], [False, True])
    f.rand("collisions", ctx.n(1500, 9000), pools=("collide",), seqs=(1, 6, 4, 8, 9, 10, 14), opts=["rv", "v", "r"], hard=0.25, types="dffflps", width=8, maxent=30)
    f.rand("names that ignore case", ctx.n(600, 4000), ci=True, pools=("collide", "plain"), seqs=(6, 8, 1), opts=["rv", "v"], types="dff", width=7)
    f.rand("listed again", ctx.n(300, 2000), pools=("collide", "cgi"), seqs=(1, 5, 7, 14), opts=["rv"], relist=True)
    f.rand("with faults", ctx.n(400, 3000), fault=True, pools=("collide", "all"), seqs=(1, 6), opts=["rv"])
    f.small("small worlds, names that cannot be looked up", ctx.n(500, 5000), COL4, "dfl", 3, [TT], [1, 6], ["v", "rv", "rnv"], [False, True], post=unknown)
    f.rand("names that cannot be looked up", ctx.n(400, 4000), pools=("collide", "odd"), seqs=(1, 6, 4), opts=["rv", "v", "r", "rnv"], types="dffflp", width=6, post=unknown)
    f.general(ctx.n(600, 6000), hard=0.1, types="dffflps")


def c02(ctx):
    models(ctx)
    f = Fam(ctx)
    names = [b"a b", b"a_b", b"a  b", b".h h", b"i g", b"%41", b"a%2Fb", b"c d"]
    f.small("small worlds", ctx.n(2500, 12000), names, "df", 3, [TT, [b"t t", b"t t"]], [1, 7], ["n", "rn", "rnv"], [False])
    f.rand("dry runs", ctx.n(3000, 24000), opts=["n", "rn", "rnv", "nv"], seqs=range(1, SYSTEMATIC + 1), types="dffflps", hard=0.1)
    f.rand("dry runs with faults", ctx.n(300, 3000), fault=True, opts=["rn", "rnv"], seqs=range(1, SYSTEMATIC + 1))
    f.rand("dry runs ignoring case", ctx.n(300, 2000), ci=True, opts=["rn", "rnv"], seqs=(6, 8), types="dff")
    # without collisions the dry run's lines are the real run's renames, in order
    scs = []
    for _ in range(ctx.n(400, 3000)):
        s = scen.rand(f.rng, pools=("odd", "cgi", "plain"), seqs=(1, 2, 4, 5, 6), opts=["rnv", "nv"], nargs=1)
        scs.append(s)
    pair(ctx, f, scs)


def pair(ctx, f, scs):
    """The same scenario dry and for real; where the specification's new names are all different and free,
    the two runs must name the same renames."""
    dry, real = [dict(s) for s in scs], [dict(s, opts=s["opts"].replace("n", "")) for s in scs]
    a, b = f.R.record(dry), f.R.record(real)
    agree = 0
    for s, x, y in zip(scs, a, b):
        if x["err"] or y["err"] or x["exit"] or y["exit"] or any(b"\n" in p for p, _, _ in s["tree"]): continue
        strip = lambda r: sorted((l.split(b"/")[-1] for l in bytes(r["out"]).split(b"\n") if b" -> " in l))
        if strip(x) == strip(y): agree += 1
        else:
            # a descent under a name that changed in between is expected; compare last components only
            ctx.violation("pairs: dry run and real run of %s announce different renames" % s["args"],
                          {"kind": "pair", "scenario": {k: v for k, v in s.items() if not k.startswith("_")}, "dry": x["out"], "real": y["out"]})
    ctx.family("dry and real run compared", len(scs), agree=agree)


def c03(ctx):
    models(ctx)
    f = Fam(ctx)
    names = [b"%2541", b"%41", b"A", b"a%2Fb", b"a b", b"%2F", b"__", b"%2e"]
    f.small("small worlds", ctx.n(2000, 12000), names, "dfl", 2, [TT, [b"t t/"], [b"t t/a b/../%41", b"./t t/."], [b"t t/a%2Fb"]], [1, 7, 9, 11], ["rv", "v"], [False, True])
    f.rand("odd results", ctx.n(1800, 12000), pools=("cgi", "odd", "high", "long"), seqs=(3, 5, 7, 9, 10, 11, 12, 13, 14, 15, 16), opts=["rv", "v", "rnv"], types="dffls")
    f.rand("spellings", ctx.n(1200, 9000), pools=("odd", "plain", "collide"), seqs=(1, 5, 6), opts=["rv", "v"], nargs=4)
    f.general(ctx.n(800, 8000))


def c04(ctx):
    models(ctx)
    f = Fam(ctx)
    names = [b".h h", b"i g", b"i_g", b"i gx", b"a b", b"..x y", b"xi g"]
    f.small("small worlds", ctx.n(2000, 12000), names, "df", 3, [TT, [b"t t/.h h", b"t t/i g"], [b"t t/"]], [1], ["rv", "v"], [False])
    def many(rng, s):
        if rng.random() < 0.5: s["ign"] = rng.sample(scen.IGNORED + scen.NEARIGN + [b"README", b"a b", b"plain"], rng.randint(1, 5))
    f.rand("hidden and ignored", ctx.n(2500, 18000), pools=("hidden", "ign", "plain"), seqs=(1, 4, 6, 16), opts=["rv", "v", "rv", "rnv"], types="dddffl", post=many, width=7, maxent=40, ign=0.8)
    f.rand("mixed", ctx.n(1000, 8000), pools=("hidden", "ign", "all"), seqs=(1, 5, 7, 16), opts=["rv", "r"], types="ddff", post=many)
    f.rand("listed again", ctx.n(300, 2000), pools=("hidden", "ign"), seqs=(1, 16), opts=["rv"], relist=True, post=many)


def c05(ctx):
    models(ctx)
    f = Fam(ctx)
    f.small("small worlds", ctx.n(2000, 12000), [b"a b", b"a_b", b"c d", b".h h"], "dflps", 2, [TT, [b"t t/a b"], [b"t t/a b/"], [b"t t/a b", b"t t/c d"]], [1], ["rv", "v"], [False, True])
    def links(rng, s):
        # links to directories and files elsewhere in the tree, also as arguments
        ls = [p for p, t, x in s["tree"] if t == "l"]
        if ls and rng.random() < 0.6: s["args"] = s["args"] + [rng.choice(ls)]
    f.rand("special files", ctx.n(2200, 16000), pools=("collide", "odd", "plain"), seqs=(1, 6, 10), opts=["rv", "v", "rnv", "r"], types="dfllllpps", post=links, ign=0.2)
    f.rand("unknown types listed", ctx.n(500, 4000), pools=("odd", "collide"), seqs=(1,), opts=["rv"], types="dflllps", post=links, dtunk=True)
    f.general(ctx.n(600, 6000), types="dflps")


def deep(rng, depth):
    t, p = [], b""
    for k in range(depth):
        n = rng.choice([b"d d", b"e_e", b"%20x", b"(y)", b"plain", b"f  f"])
        p = p + b"/" + n if p else n
        t.append((p, "d", None))
        for m in rng.sample([b"u v", b"w", b"u_v"], rng.randint(0, 2)): t.append((p + b"/" + m, "f", None))
    return t


def c06(ctx):
    models(ctx, ("MCw_ends.cfg",))
    f = Fam(ctx)
    names = [b"a b", b"a_b", b"c d", b"i g", b".h h", b"a%2Fb", b"plain"]
    f.small("small worlds", ctx.n(1800, 12000), names, "dfl", 3, [TT, [b"t t/"], [b"."]], [1, 7], ["rv", "v", "rnv"], [False])
    f.rand("deep trees", ctx.n(900, 8000), pools=("collide", "odd"), seqs=(1, 4, 6, 5, 10), opts=["rv", "rv", "v", "rnv"], types="dddff", depth=6, width=3, maxent=40)
    chains = []
    for k in range(ctx.n(40, 200)):
        chains.append({"tree": deep(f.rng, f.rng.choice([5, 12, 25, 40])), "args": [b"."], "seq": 1, "opts": f.rng.choice(["rv", "rnv", "r"]), "sp": False, "ign": [], "order": k % 4, "seed": k})
    f.go("chains of directories", chains)
    wide = []
    for k in range(ctx.n(4, 18)):
        n = ctx.n([90, 280, 600, 1100], [64, 150, 280, 600, 1100, 2500])[k % ctx.n(4, 6)]
        t = [(b"w w", "d", None)] + [(b"w w/n %d" % i, f.rng.choice("fffd"), None) for i in range(n)]
        wide.append({"tree": t, "args": [b"w w"], "seq": 1, "opts": "v", "sp": False, "ign": [], "order": k % 4, "seed": k, "relist": k % 2 == 1})
    f.go("wide directories", wide)
    f.rand("with faults", ctx.n(500, 4000), fault=True, pools=("collide", "odd"), seqs=(1,), opts=["rv"], types="ddff", depth=4)
    f.general(ctx.n(600, 6000))


def c07(ctx):
    models(ctx)
    f = Fam(ctx)
    names = [b"%2541", b"%25252541", b"%41", b"A", b"b", b"c", b"a b"]
    def order(rng, s):
        s["relist"] = rng.random() < 0.6
    f.small("small worlds", ctx.n(1500, 9000), names, "df", 3, [TT], [7, 14, 5], ["rv", "v"], [False], post=order)
    f.rand("not idempotent", ctx.n(1500, 12000), pools=("cgi", "plain", "odd"), seqs=(7, 14, 9, 16, 11, 5), opts=["rv", "v", "r"], types="dfff", post=order, width=8, maxent=30)
    f.rand("listed again", ctx.n(1500, 12000), pools=("collide", "cgi", "plain"), seqs=(1, 5, 6, 7, 14), opts=["rv"], types="ddfff", relist=True, width=8, maxent=30)
    # the same tree listed in every order there is
    base = []
    for _ in range(ctx.n(60, 500)):
        s = scen.rand(f.rng, pools=("cgi", "odd"), seqs=(7, 1), opts=["rv"], nargs=1, maxent=8)
        for o in range(4):
            base.append(dict(s, order=o, seed=o * 7, relist=o % 2 == 0))
    f.go("all orders", base)
    # more entries than a program would hold back at a time, listed again when the listing has come to its end
    wide = []
    for k, n in enumerate(ctx.n([70, 140, 290, 560, 1090], [70, 140, 290, 560, 600, 1090, 1100, 2100, 4200])):
        names = sorted({f.rng.choice([b"n%%2541%d", b"n%%252541 %d", b"%d%%2541", b"N %d", b"n%d"]) % i for i in range(n)})
        wide.append({"tree": [(x, "f", None) for x in names], "args": [b"."], "seq": 7, "opts": "v", "sp": False, "ign": [], "order": k % 4, "seed": k, "relist": True})
    f.go("large directories", wide)


def missing(rng, s):
    """Arguments that name nothing."""
    for _ in range(rng.randint(0, 2)):
        s["args"] = list(s["args"])
        s["args"].insert(rng.randint(0, len(s["args"])), rng.choice([b"nope", b"no pe", b"plain/zz y", b"", b"nope/", b"./no/where", b"a b/x"]))


def permissions(rng, s):
    """Directories that cannot be listed, searched or written to (with everything above them usable when it is named)."""
    dirs = [p for p, t, x in s["tree"] if t == "d"]
    s["perm"] = [(d, rng.choice([0o555, 0o444, 0o644, 0o111, 0, 0o333, 0o666])) for d in rng.sample(dirs, min(len(dirs), rng.choice([1, 1, 2, 3])))]
    s["perm"].sort()


def longpath(rng, s):
    """The paths of some entries are longer than paths can be."""
    inside = rng.choice([b""] + [p for p, t, x in s["tree"] if t == "d"][:3])
    n = 4095 - rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 100, 256, 300]) - len(inside)
    s["args"] = [b"./" * (n // 2) + (b"/" if n % 2 else b"") + (inside or b".")]


def c08(ctx):
    models(ctx)
    f = Fam(ctx)
    f.rand("faults", ctx.n(2200, 16000), fault=True, pools=("collide", "odd", "plain"), seqs=(1, 6, 7), opts=["rv", "v", "r", ""], types="ddfffl", post=missing)
    names = [b"a b", b"a_b", b"c d", b"e f"]
    def inject(rng, s):
        x = rng.random()
        if x < 0.4: s["rfault"] = [(rng.choice(names + [b"t t"]), rng.choice(scen.ERRS))]
        elif x < 0.8:
            d = rng.choice(names + [b"t t"])
            e = rng.choice(scen.OERRS + [errno.EMFILE] * 3)
            s["ofault"] = [(d, e), (d.replace(b" ", b"_"), e)]
    f.small("small worlds", ctx.n(1500, 12000), names, "df", 3, [TT, [b"nope", b"t t"], [b"t t", b"t_t"]], [1], ["rv", "v", "rnv"], [False], post=inject)
    # every single rename and every single directory failing, one at a time
    scs = []
    for _ in range(ctx.n(40, 400)):
        s = scen.rand(f.rng, pools=("odd", "collide"), seqs=(1,), opts=["rv"], nargs=2, maxent=10, types="ddff")
        for p, t, x in s["tree"]:
            n = p.split(b"/")[-1]
            scs.append(dict(s, rfault=[(n, errno.EACCES)]))
            if t == "d":
                for e in (errno.EACCES, errno.EMFILE):
                    scs.append(dict(s, ofault=[(n, e), (n.replace(b" ", b"_"), e)]))
    f.go("one fault at every place", scs)
    f.rand("names that cannot be looked up", ctx.n(500, 4000), pools=("collide", "odd"), seqs=(1, 6), opts=["rv", "v", "r", "rnv"], types="ddfffl", nargs=2, post=unknown)
    f.rand("permissions", ctx.n(700, 7000), pools=("collide", "odd", "all"), seqs=(1, 5, 6, 7), opts=["rv", "r", "v", "rnv"], types="dddfffl", post=permissions)
    f.rand("paths as long as they get", ctx.n(24, 200), pools=("odd", "plain", "long"), seqs=(1, 6), opts=["rv", "rnv", "r"], types="ddffl", nargs=1, maxent=6, depth=2, width=3, post=longpath)
    f.general(ctx.n(500, 5000), post=missing)


def c09(ctx):
    models(ctx)
    for c in ("MCf_shell.cfg",) + (("MCf_shell_deep.cfg", "MCf_shell_bytes.cfg") if ctx.thorough else ()):
        common.model_check(ctx, "MC_Filters", c)
    import filt, checks_filter
    f = Fam(ctx)
    def again(rng, s):
        s["twice"] = True
        s["args"] = [rng.choice([b".", b"@ABS@", b"./"])]
    f.rand("second runs", ctx.n(2000, 15000), pools=("all",), seqs=(1, 4, 6), opts=["rv", "v", "r"], types="dddffl", post=again)
    f.rand("second runs after collisions", ctx.n(800, 8000), pools=("collide", "odd"), seqs=(1, 4, 6), opts=["rv"], types="ddfff", post=again, width=8)
    f.rand("second runs with special files", ctx.n(300, 3000), pools=("odd", "high"), seqs=(1, 4, 6), opts=["rv"], types="dflps", sp=True, post=again)
    checks_filter.F.check(checks_filter.idempotence)(ctx)


def c10(ctx):
    models(ctx)
    f = Fam(ctx)
    f.rand("verbose runs", ctx.n(1500, 12000), pools=("all",), seqs=range(1, SYSTEMATIC + 1), opts=["v", "rv", "rnv", "nv"], nargs=3, types="ddfffl")
    f.rand("quiet runs", ctx.n(900, 8000), pools=("all",), seqs=range(1, SYSTEMATIC + 1), opts=["", "r", "n", "rn"], types="ddfffl")
    f.rand("with faults", ctx.n(900, 8000), fault=True, pools=("collide", "odd"), seqs=(1, 6, 7), opts=["rv", "r", "rnv"], types="ddfff")
    f.rand("with missing arguments", ctx.n(500, 4000), pools=("all",), seqs=(1, 5, 6, 7), opts=["v", "rv", "nv", "rnv", "r", ""], nargs=3, types="ddffl", post=missing)
    names = [b"a b", b"a_b", b"c d", b".h h", b"a%2Fb"]
    f.small("small worlds", ctx.n(1200, 8000), names, "dfl", 3, [TT, [b"t t/"], [b"nope", b"t t", b"t t/a b"], [b"./t t//"]], [1, 7], ["rv", "v", "rn", ""], [False, True])


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10}
