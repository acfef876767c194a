"""C37: detox is stopped at any point and started again.  C38: other programs change the tree while detox works on it."""
import checks_walk, scen

checks_walk.LABELS["C37"] = {"clobber", "final", "changed", "mutation", "outside", "moved", "ghost", "goal", "again", "wrongname", "missed", "untasked", "twice", "exit", "shouldblock"}
checks_walk.LABELS["C38"] = {"clobber", "final", "changed", "mutation", "outside", "moved", "ghost", "special", "wrongname", "missed", "untasked", "twice", "exit", "silent", "shouldblock", "hidden", "report"}


def base(p): return p.split(b"/")[-1]


def under(p): return p.rsplit(b"/", 1)[0] if b"/" in p else b""


def singular(rng, n, types, depth=4, width=6):
    """A tree in which no two entries can end up with the same name."""
    out, dirs = [], [(b"", 0)]
    for i in range(n):
        d, lev = rng.choice(dirs[-4:])
        x = rng.choice([b"a b", b"(c)", b".h h", b"i g", b"plain", b"d  e", b"caf\xc3\xa9 x", b"__ z", b"-q r", b"s&t", b"u.tar gz", b"\xff v", b"it's", b"_"]) + rng.choice([b"", b"", b" ", b"- "]) + b"x%dx" % i
        p = d + b"/" + x if d else x
        t = rng.choice(types)
        if t == "d" and lev < depth: dirs.append((p, lev + 1))
        out.append((p, "f" if t == "d" and lev >= depth else t, b"gone" if t == "l" else None))
    return out


def c37(ctx):
    checks_walk.models(ctx)
    f = checks_walk.Fam(ctx)
    def stop(rng, s):
        s["kill"] = rng.choice([rng.randint(1, 12), rng.randint(1, 40), rng.randint(1, 8 * len(s["tree"]) + 8)])
    f.rand("stopped anywhere", ctx.n(1500, 16000), pools=("collide", "odd", "cgi", "plain"), seqs=(1, 6, 7, 14), opts=["rv", "rv", "v", "r", "rnv"], types="ddffflp", hard=0.1, post=stop)
    scs = []
    for _ in range(ctx.n(10, 120)):
        s = scen.rand(f.rng, pools=("odd", "collide"), seqs=(1, 6), opts=["rv", "rv", "v"], nargs=f.rng.choice([1, 2]), maxent=7, types="ddff")
        for k in range(1, 9 * len(s["tree"]) + 12): scs.append(dict(s, kill=k))
    f.go("stopped at every call", scs)
    def stops(rng, s):
        s["kills"] = [rng.randint(1, 4 + 5 * len(s["tree"])) for _ in range(rng.choice([1, 1, 2, 3]))]
    scs = []
    for k in range(ctx.n(700, 6000)):
        s = {"tree": singular(f.rng, f.rng.choice([3, 6, 10, 25]), f.rng.choice(["dff", "ddfffl"])), "args": [f.rng.choice([b".", b"./", b"@ABS@/.", b"@ABS@/"])], "seq": f.rng.choice([1, 6]), "opts": f.rng.choice(["rv", "r", "v"]),
             "sp": f.rng.random() < 0.3, "ign": scen.IGN if f.rng.random() < 0.5 else [], "order": k % 4, "seed": k, "goal": True}
        stops(f.rng, s)
        scs.append(s)
    f.go("stopped, and completed by a further run", scs)
    f.rand("colliding names, stopped and started again", ctx.n(500, 5000), pools=("collide", "odd"), seqs=(1, 6), opts=["rv", "r", "v"], types="ddfff", hard=0.2, post=stops)


def c38(ctx):
    checks_walk.models(ctx, ("MCw_C38v_deep.cfg",))
    if not ctx.thorough: checks_walk.model(ctx, "MCw_C38v.cfg")
    f = checks_walk.Fam(ctx)
    def one(rng, s):
        if len(s["args"]) > 1: s["args"] = s["args"][:1]
    def away(rng, s, at=None):
        paths = [p for p, t, x in s["tree"]]
        dirs, ops = [], []
        for i in range(rng.choice([1, 1, 2, 4])):
            p = rng.choice(paths)
            d = under(p)
            if d not in dirs:
                if len(dirs) == 6: continue
                dirs.append(d)
            ops.append((at or rng.choice([rng.randint(1, 20), rng.randint(1, 7 * len(paths) + 8)]), 1 + dirs.index(d), base(p), 0, b"t%d" % i))
        s["others"] = {"pool": [], "dirs": dirs, "ops": ops}
    f.rand("entries taken away", ctx.n(1800, 16000), pools=("collide", "odd", "plain"), seqs=(1, 6), opts=["rv", "rv", "v", "r", "rnv"], types="ddffflp", post=away)
    scs = []
    for _ in range(ctx.n(8, 100)):
        s = scen.rand(f.rng, pools=("odd", "collide"), seqs=(1, 6), opts=["rv", "rv", "rnv"], nargs=1, maxent=8, types="ddff")
        away(f.rng, s, 1)
        for k in range(1, 8 * len(s["tree"]) + 10):
            scs.append(dict(s, others=dict(s["others"], ops=[(k,) + o[1:] for o in s["others"]["ops"][:1]])))
    f.go("taken away at every call", scs)
    def changed(rng, s):
        s["args"] = [rng.choice([b".", b".", b"./", b"@ABS@"])]
        dirs = [b""] + [p for p, t, x in s["tree"] if t == "d"]
        d = rng.choice(dirs[:4])
        inside = [base(p) for p, t, x in s["tree"] if under(p) == d]
        pool = [(b"f", "f", None), (b"l", "l", rng.choice([b"..", b"nowhere", b"."])), (b"D D", "d", None), (b"D D/x y", "f", None), (b"D D/s s", "d", None), (b"D D/s s/u u", "f", None), (b"p", "p", None), (b"g g", "f", None)]
        have = [b"f", b"l", b"D D", b"p", b"g g"]
        rng.shuffle(have)
        clean = lambda n: n.replace(b" ", b"_").replace(b"  ", b"_").replace(b"(", b"_").lower() if rng.random() < 0.2 else n.replace(b" ", b"_").replace(b"__", b"_")
        ops = []
        for i in range(rng.choice([1, 1, 2, 3, 5])):
            x = rng.random()
            n = rng.choice(inside) if inside else b"n n"
            if x < 0.25: ops.append((d, 1, n, 0, b"o%d" % i))
            elif x < 0.5 and have: ops.append((d, 0, have.pop(), 1, clean(n)))
            elif x < 0.75 and have: ops += [(d, 1, n, 0, b"o%d" % i), (d, 0, have.pop(), 1, n)]
            elif x < 0.85: ops.append((d, 1, n, 1, rng.choice([clean(n), n + b" new", b"new"])))
            elif have: ops.append((d, 0, have.pop(), 1, rng.choice([b"new  n", b".new n", b"i g"])))
        s["others"] = {"pool": pool, "dirs": [d], "ops": [o for o in ops if o[2] != o[4] or o[1] != o[3]]}
    f.rand("changed after it was listed", ctx.n(2500, 20000), pools=("collide", "odd", "plain"), seqs=(1, 6, 7), opts=["rv", "rv", "r", "rnv"], types="ddfffl", width=7, post=changed)
    f.small("small worlds", ctx.n(1000, 8000), [b"a b", b"a_b", b"a  b", b"c d", b"e"], "dfl", 3, [[b"."]], [1], ["rv", "v", "rnv"], [False, True], post=changed)


CHECKS = {"C37": c37, "C38": c38}
