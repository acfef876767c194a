"""Scenario generators for runs over trees of files."""
import os, errno, itertools
from seqs import *

IGN = [b"i g", b"{arch}", b"x y.z"]

COLLIDE = [b"a b", b"a_b", b"a  b", b"a__b", b"A B", b"a_B", b"a b.", b"_a b", b"-a_b", b"a ~b", b"a?b", b"a*b", b"a\tb", b"a\nb",
           b"a_-b", b"a-b", b"a(b", b"a[b", b"a - b"]
HIDDEN = [b".h h", b".a b", b"..x y", b"...", b". x", b".", ]
IGNORED = [b"i g", b"{arch}", b"x y.z"]
NEARIGN = [b"i g ", b"i gx", b"xi g", b"I g", b"{arch} ", b"x y.zz", b"i", b"{arch", b"i_g", b"i  g"]
CGI = [b"%2541", b"%41", b"a%2Fb", b"%2f", b"%25252541", b"a+b", b"%00x", b"x%00y", b"%", b"a%4", b"%%34", b"%2e%2e", b"%2E", b"%41%42 c"]
ODD = [b"-x", b"--", b"_", b"__", b"#a", b"#", b"a#b", b"a_", b"a_.", b"a.b c.", b"a..b", b" lead", b"trail ", b"a b.tar.gz", b"(x)", b"[y]",
       b"x_-_y", b"it's", b'q"q', b"\\", b"a\\b", b"$HOME", b"a;b", b"a|b", b"a&b", b"&", b"a`b", b"*", b"?", b"<>", b"~", b"a=b", b"a,b",
       b"a\x01b", b"\x7f", b"a\nb\nc", b"\n", b"\r", b"%s %d", b"a%nb c", b"-> x", b" -> "]
HIGH = ["é x".encode(), b"\xe9 x", b"\xff", b"\xc3 z", "naïve file".encode(), "日本 語".encode(), b"\x80", b"\x9f y", "a b".encode(), b"\xe2\x80",
        b"\xc0\x80 q", b"\xf4\x90\x80\x80 r", "‐x y".encode(), b"\xc3"]
LONG = [b"l" * 120 + b" " + b"m" * 120, b"&" * 60, b"&" * 50 + b" ", b"x y" * 85, b"z" * 250 + b" b.c", b" " * 255, b"(" * 255, b"n" * 255,
        b"e" * 200 + b" .tar.gz", b"q " * 127]
PLAIN = [b"plain", b"a", b"b.txt", b"README", b"x1", b"lib.so", b"ab", b"c"]
ALL = COLLIDE + HIDDEN[:4] + IGNORED + NEARIGN + CGI + ODD + HIGH + LONG + PLAIN
POOLS = {"collide": COLLIDE, "hidden": HIDDEN[:4] + [b".a b"], "ign": IGNORED + NEARIGN, "cgi": CGI, "odd": ODD, "high": HIGH, "long": LONG, "plain": PLAIN, "all": ALL}
ALLBYTES = [c for c in range(1, 256) if c != 0x2f]
ERRS = [errno.EACCES, errno.EPERM, errno.ENOSPC, errno.EIO, errno.EROFS, errno.EBUSY, errno.EXDEV]
OERRS = [errno.EACCES, errno.ENOMEM, errno.EIO, errno.ENFILE]


def seqbook():
    """The sequences walk scenarios choose from."""
    b = Book()
    for s in SHIPPED.values():
        b.add(s)
    b.add([f_uncgi()])                                     # 7: may produce slashes, escapes again
    b.add([f_lower()])                                     # 8
    b.add([f_safe(table({0x20: b"", 0x2d: b"__", 0x62: b"a b"}))])   # 9: can empty a name, is not idempotent
    b.add([f_safe(table({}, b"x"))])                       # 10: everything collides
    b.add([f_safe(table({0x20: b"/", 0x61: b"../a"}))])    # 11: produces slashes
    b.add([f_safe(table({0x61: b"."}))])                   # 12: can produce "." and ".."
    b.add([f_max(8)])                                      # 13
    b.add([f_safe(table({0x61: b"b", 0x62: b"c", 0x63: b"a", 0x20: b"_"}))])  # 14: rotates names
    b.add([f_utf(), f_safe(), f_wipe(False), f_max(20)])   # 15
    b.add([f_safe(table({0x62: b".", 0x20: b"_"}))])       # 16: makes names hidden
    return b


def name(rng, pools):
    p = POOLS[rng.choice(pools)]
    n = rng.choice(p)
    x = rng.random()
    if x < 0.15:
        m = rng.choice(POOLS[rng.choice(pools)])
        n = n + rng.choice([b" ", b"_", b".", b"-", b""]) + m
    elif x < 0.22:
        n = bytes(rng.choice(ALLBYTES) for _ in range(rng.randint(1, 12)))
    elif x < 0.28:
        n = n[:rng.randint(1, len(n))]
    elif x < 0.33:
        k = rng.randint(0, len(n))
        n = n[:k] + bytes([rng.choice(ALLBYTES)]) + n[k:]
    return n[:255]


def alike(rng, base):
    """A name that has much in common with base."""
    n = bytearray(base or b"a")
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.random()
        k = rng.randrange(len(n)) if rng.random() < 0.6 else max(0, len(n) - 1 - rng.randrange(4))
        if x < 0.55: n[k] = rng.choice(b"abAB xy_-%.(&\xe9")
        elif x < 0.7: n[k:k] = bytes([rng.choice(b"a B_")])
        elif x < 0.8 and len(n) > 1: del n[k]
        elif x < 0.9: n[k:k + 1] = bytes([n[k] ^ 0x20]) if n[k] not in (0x20, 0x0f) else b"z"
        elif len(n) > 1:
            j = rng.randrange(len(n)); n[k], n[j] = n[j], n[k]
    return bytes(n)[:255]


def family_base(rng):
    n = rng.choice([3, 8, 20, 33, 66, 70, 130, 200, 250])
    return bytes(rng.choice(b"aaaabcxyz 01_.AB") for _ in range(n))


def good(n):
    return n not in (b"", b".", b"..") and b"/" not in n and b"\0" not in n


def tree(rng, pools, width=5, depth=3, types="dfffl", maxent=24, hard=0.0):
    out, dirs, files = [], [(b"", 0)], []
    base = family_base(rng) if rng.random() < 0.12 else None
    seen = set()
    count = 0
    while dirs and count < maxent:
        d, lev = dirs.pop(0)
        for _ in range(rng.randint(1 if lev else 2, width)):
            for _try in range(4):
                n = alike(rng, base) if base else name(rng, pools)
                p = d + b"/" + n if d else n
                if good(n) and p not in seen and len(p) < 1500:
                    break
            else:
                continue
            seen.add(p)
            t = rng.choice(types)
            if t == "d" and lev >= depth:
                t = "f"
            if t == "f" and files and rng.random() < hard:
                out.append((p, "h", rng.choice(files)))
            elif t == "d":
                out.append((p, "d", None))
                dirs.append((p, lev + 1))
            elif t == "f":
                out.append((p, "f", None))
                files.append(p)
            elif t == "l":
                tgt = rng.choice([b"nowhere", b".", b"..", rng.choice([x[0] for x in out] or [b"x"]), b"../" + n, n + b" z"])
                if rng.random() < 0.4 and out:
                    # a link to something that exists, relative to where the link is
                    tgt = b"../" * lev + rng.choice(out)[0]
                out.append((p, "l", tgt))
            else:
                out.append((p, t, None))
            count += 1
            if count >= maxent:
                break
    return out


def args_for(rng, tr, n=None):
    paths = [p for p, t, x in tr]
    dirs = [p for p, t, x in tr if t == "d"]
    # links to a directory that does not hold them (renaming what is on the way to a path is another matter)
    to = lambda p, x: os.path.normpath(os.path.dirname(p) + b"/" + x).lstrip(b"/")
    links = [p for p, t, x in tr if t == "l" and to(p, x) in dirs and not (p + b"/").startswith(to(p, x) + b"/")]
    out = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3, 4])):
        x = rng.random()
        if x < 0.35 and dirs: a = rng.choice(dirs)
        elif x < 0.55: a = rng.choice([b".", b"./", b"@ABS@", b"@ABS@/", b"./."])
        elif x < 0.8 and paths: a = rng.choice(paths)
        elif x < 0.86: a = rng.choice([b"nope", b"no pe/x", b"plain/x", b"", b"nope/"])
        elif x < 0.92 and dirs: a = rng.choice(dirs) + b"/"
        elif x < 0.95 and dirs: a = b"./" + rng.choice(dirs) + b"/."
        elif paths: a = b"@ABS@/" + rng.choice(paths)
        else: a = b"."
        if links and rng.random() < 0.06:   # through a link
            a = rng.choice(links) + rng.choice([b"/", b"/.", b"//", b"/" + name(rng, ["all"])] + [b"/" + p.split(b"/")[-1] for p in rng.sample(paths, min(4, len(paths)))])
        if a.startswith(b"/"):
            a = b"." + a
        if a and x < 0.8 and rng.random() < 0.15: a = b"./" + a
        if b"@ABS@" not in a and rng.random() < 0.05: a = a.replace(b"/", b"//")
        out.append(a)
    return out


def rand(rng, pools=("all",), seqs=(1,), types="dfffl", opts=None, hard=0.0, maxent=24, depth=3, width=5, sp=None, ign=0.5, nargs=None, **kw):
    tr = tree(rng, list(pools), width, depth, types, maxent, hard)
    o = "v" if opts is None else rng.choice(opts)
    sc = {"tree": tr, "args": args_for(rng, tr, nargs), "seq": rng.choice(list(seqs)), "opts": o,
          "sp": rng.random() < 0.4 if sp is None else sp, "ign": IGN if rng.random() < ign else [],
          "order": rng.randint(0, 3), "seed": rng.randint(0, 9999)}
    if rng.random() < 0.15: sc["dtunk"] = True
    sc.update(kw)
    return sc


def with_faults(rng, sc, rename=0.7, opend=0.5):
    names = [p.split(b"/")[-1] for p, t, x in sc["tree"]]
    dirs = [p.split(b"/")[-1] for p, t, x in sc["tree"] if t == "d"]
    if names and rng.random() < rename:
        sc["rfault"] = [(rng.choice(names), rng.choice(ERRS)) for _ in range(rng.randint(1, 3))]
    if dirs and rng.random() < opend:
        # faults go by name, so a directory must not be reached under several
        def plainarg(a):
            while a.endswith((b"/.", b"/")) and len(a) > 2: a = a[:-2] if a.endswith(b"/.") else a[:-1]
            return a
        sc["args"] = [plainarg(a) for a in sc["args"]]
        d = rng.choice(dirs)
        e = rng.choice(OERRS + [errno.EMFILE])
        # under its old and new name
        sc["ofault"] = [(d, e)] + [(x, e) for x in (d.replace(b" ", b"_"), d.lower()) if x != d]
    return sc


def clean_ci(sc):
    """Drop entries that differ only in case from an earlier sibling (needed when lookups ignore case)."""
    seen, out, gone = set(), [], []
    for p, t, x in sc["tree"]:
        if any(p.startswith(g + b"/") for g in gone): continue
        k = (p.rsplit(b"/", 1)[0] if b"/" in p else b"", p.rsplit(b"/", 1)[-1].lower())
        if k in seen or (t in "lh"):
            gone.append(p)
            continue
        seen.add(k)
        out.append((p, t, x))
    sc["tree"] = out
    keep = {p for p, t, x in out}
    sc["args"] = [a for a in sc["args"] if a.strip(b"/") in keep or a in (b".", b"./", b"nope")] or [b"."]
    sc["ci"] = True
    return sc


def small_worlds(names, types, maxn, args, seqs, opts, sps, ign=IGN, inner=b"x y"):
    """Every tree made of the directory "t t" with up to maxn of these names (the scope of MC_Walk)."""
    for k in range(1, maxn + 1):
        for ns in itertools.combinations(names, k):
            for ty in itertools.product(types, repeat=k):
                tr = [(b"t t", "d", None)]
                for n, t in zip(ns, ty):
                    p = b"t t/" + n
                    if t == "d":
                        tr += [(p, "d", None), (p + b"/" + inner, "f", None)]
                    elif t == "l":
                        tr.append((p, "l", b"."))
                    else:
                        tr.append((p, t, None))
                for a in args:
                    for s in seqs:
                        for o in opts:
                            for sp in sps:
                                yield {"tree": tr, "args": a, "seq": s, "opts": o, "sp": sp, "ign": ign}
