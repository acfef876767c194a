"""C11-C18: what the filters make of names."""
import itertools
import common, filt, scen
from seqs import *

ALPHA = scen.ALLBYTES


def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield bytes(t)


def utf(cp): return chr(cp).encode("utf-8", "surrogatepass")


CHARS = [bytes([b]) for b in range(1, 256) if b != 10] + [utf(c) for c in
         (0xa0, 0xad, 0xe4, 0xff, 0x100, 0x7ff, 0x800, 0x2002, 0x200b, 0x2010, 0x2013, 0x2014, 0x2017, 0x2028, 0x202e, 0x2044, 0x205f, 0x2060, 0x2064, 0x3000, 0xd800, 0xdfff,
          0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff)] + [b"\xf4\x90\x80\x80", b"\xf7\xbf\xbf\xbf", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xc0\xaf",
          b"\xfd\xbf\xbf\xbf\xbf\xbf", b"%41", b"%2f", b"%00", b"%2541", b"%e4", b"%", b"+", b"..", b"__", b"--", b"-_", b"._", b"&", b"_and_"]


def wide(ctx):
    """Single characters, alone and between letters: all that the shipped tables name and many more."""
    cps = list(range(0x80, 0x600)) + list(range(0x1e00, 0x1f00)) + list(range(0x2000, 0x2070)) + list(range(0x20a0, 0x20d0)) + [0x2116, 0x2122, 0x2212, 0x3000, 0xfb01, 0xfeff, 0xff0f, 0xfffd, 0x1f600]
    if ctx.thorough: cps = list(range(0x80, 0xd800)) + list(range(0xe000, 0x10000)) + list(range(0x10000, 0x110000, 0x101))
    return [x for c in cps for x in (utf(c), b"a" + utf(c) + b"b")]


LAST = [b"last name"]


def rname(rng, n=12, chars=CHARS):
    """A random name; sometimes one much like the name before it."""
    s = scen.alike(rng, LAST[0]).replace(b"\n", b"n") if LAST[0] and rng.random() < 0.08 else rname1(rng, n, chars)
    LAST[0] = s
    return s


def rname1(rng, n, chars):
    x = rng.random()
    if x < 0.35: return b"".join(rng.choice(chars) for _ in range(rng.randint(1, n)))
    if x < 0.55: return bytes(rng.choice(ALPHA) for _ in range(rng.randint(1, n))).replace(b"\n", b"n")
    if x < 0.9: return scen.name(rng, ["all"]).replace(b"\n", b" ")
    return b"".join(rng.choice(chars) for _ in range(rng.randint(20, 120)))[:900]


def fname(rng, **kw):
    """A name that can be that of a file."""
    while True:
        n = rname(rng, **kw).replace(b"/", b"|")[:255]
        if scen.good(n): return n


class F:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.book = Book()
        self.C = filt.Cleaner(ctx, self.book)
        self.wait = []

    def seq(self, *fs): return self.book.add(list(fs))

    def lines(self, name, seq, strs, ask, bname=None):
        self.run(name, [self.case(seq, s, ask, "line", bname) for s in strs])

    def case(self, seq, s, ask, mode="line", bname=None, single=False):
        c = {"s": seq, "m": mode, "in": s, "ask": ask}
        if bname is not None: c["name"] = bname
        if single: c["single"] = True
        return c

    def run(self, name, cases):
        """Families wait until there are enough of them to be worth a run of TLC."""
        for c in cases:
            if b"\n" in c["in"] and c["m"] != "file": continue
            c["fam"] = name
            self.wait.append(c)
            if len(self.wait) >= 60000: self.flush()

    def flush(self):
        w, self.wait = self.wait, []
        if w: self.C.check(w)

    @staticmethod
    def check(fn):
        def go(ctx):
            f = F(ctx)
            fn(ctx, f)
            f.flush()
        return go


def model(ctx, *cfgs):
    for c in cfgs: common.model_check(ctx, "MC_Filters", c + ".cfg")


def shipped(f):
    return {n: f.book.add(s) for n, s in SHIPPED.items()}


ASK11 = {"default": ["fun", "shell", "high"], "lower": ["fun", "shell+"], "utf_8": ["fun", "shell+"], "uncgi": ["fun", "shell+"], "iso8859_1": ["fun", "shell+"]}


def c11(ctx, f):
    model(ctx, "MCf_shell", "MCf_shell_bytes")
    if ctx.thorough: model(ctx, "MCf_shell_deep")
    sh = shipped(f)
    for n, ask in ASK11.items():
        bn = "" if n == "default" else n
        l = list(strings(ALPHA, 1)) + list(strings(b" &a-_.#(", ctx.n(4, 5)))
        if ctx.thorough or n == "default": l += [a + b for a in strings(ALPHA, 1, 1) for b in (b"a", b" ", b"-", b"_", b".", b"\xc3")] + \
                                                 [b + a for a in strings(ALPHA, 1, 1) for b in (b"a", b" ", b"-", b"_", b".", b"#")]
        l += [rname(f.rng) for _ in range(ctx.n(3000, 20000))]
        if n == "utf_8": l += wide(ctx)
        f.run("%s: lines" % n, [f.case(sh[n], s, ask, "line", bn) for s in l])
        f.run("%s: files" % n, [f.case(sh[n], s, ask, "file", bn) for s in (fname(f.rng) for _ in range(ctx.n(500, 5000)))])
        f.run("%s: every byte in a file name" % n, [f.case(sh[n], s, ask, "file", bn) for b in ALPHA for s in (bytes([b]) + b"x", b"x" + bytes([b]), b"x" + bytes([b]) + b"y") if b != 0x2f])


def idempotence(ctx, f):
    sh = shipped(f)
    for n in ("default", "lower", "utf_8"):
        bn = "" if n == "default" else n
        l = list(strings(ALPHA, 1)) + list(strings(b" &a-_.#(", ctx.n(4, 5))) + [rname(f.rng) for _ in range(ctx.n(4000, 30000))] + \
            [a + b for a in CHARS for b in f.rng.sample(CHARS, ctx.n(8, 80))]
        if n == "utf_8": l += wide(ctx)
        f.run("%s: cleaned twice" % n, [f.case(sh[n], s, ["fun", "twice"], "line", bn) for s in l])


def c12(ctx, f):
    model(ctx, "MCf_wipeup")
    if ctx.thorough: model(ctx, "MCf_wipeup_deep")
    for rt in (True, False):
        s = f.seq(f_wipe(rt))
        nm = "remove_trailing" if rt else "plain"
        f.lines(nm + ": all strings", s, strings(b"a.-_#", ctx.n(6, 8)), ["fun", "wipeup"])
        f.lines(nm + ": every byte", s, [x + bytes([b]) + y for b in ALPHA for x in (b"", b"a", b"-", b"_.", b"#") for y in (b"", b"_", b"-.", b"z")], ["fun", "wipeup"])
        sep = [b"-", b"_", b".", b"#", b"-", b"_", b".", b"a", b" ", b"\xc3\xa4", b"--", b"__", b".."]
        f.lines(nm + ": long", s, [rname(f.rng, 40, sep) for _ in range(ctx.n(2500, 20000))], ["fun", "wipeup"])
        f.run(nm + ": files", [f.case(s, fname(f.rng, n=20, chars=sep), ["fun", "wipeup"], "file") for _ in range(ctx.n(800, 6000))])


def c13(ctx, f):
    model(ctx, "MCf_cgi")
    if ctx.thorough: model(ctx, "MCf_cgi_deep")
    s = f.seq(f_uncgi())
    f.lines("all strings", s, strings(b"%4+g0F", ctx.n(5, 7)), ["fun", "uncgi"])
    hexd = b"0123456789abcdefABCDEF"
    f.lines("every escape", s, [x + b"%" + bytes([a, b]) + y for a in hexd for b in hexd for x, y in ((b"", b""), (b"x", b"y"), (b"%", b"%"), (b"%2", b"5"))], ["fun", "uncgi"])
    f.lines("malformed escapes", s, [x + b"%" + bytes([b]) + y for b in ALPHA for x in (b"", b"%", b"%4") for y in (b"", b"1", b"g", b"%41")] +
            [b"%" + a + bytes([b]) for b in ALPHA for a in (b"4", b"F", b"f")], ["fun", "uncgi"])
    pc = [b"%41", b"%2b", b"%25", b"%", b"+", b"%4", b"%g1", b"%1g", b"a", b"\xc3\xa4", b"%c3%a4", b"%0a", b"%00", b"4", b"1", b"%%", b"%20", b"%FF", b"%fe"]
    f.lines("long", s, [rname(f.rng, 30, pc) for _ in range(ctx.n(4000, 30000))], ["fun", "uncgi"])
    f.run("files", [f.case(s, fname(f.rng, n=20, chars=pc), ["fun"], "file") for _ in range(ctx.n(800, 6000))])
    s2 = f.seq(f_uncgi(), f_uncgi())
    f.lines("twice in a sequence", s2, [rname(f.rng, 20, pc + [b"%2541", b"%252541"]) for _ in range(ctx.n(800, 6000))], ["fun"])


def c14(ctx, f):
    model(ctx, "MCf_max")
    if ctx.thorough: model(ctx, "MCf_max_deep")
    for n in range(1, 9):
        s = f.seq(f_max(n))
        f.lines("limit %d: all strings" % n, s, strings(b"ab." if ctx.thorough else b"a.", ctx.n(9, 9) if not ctx.thorough else 8), ["fun", "max"])
    lims = [1, 2, 5, 9, 12, 16, 20, 31, 64, 100, 128, 200, 250, 255, 256, 257, 300, 500, 511, 512, 900, 0]
    parts = [b"a", b"b", b"x" * 7, b".", b".", b".t", b".tar", b".gz", b".tar.gz", b".tar.bz2", b"..", b" ", b"\xc3\xa4", b"." + b"e" * 20, b"z" * 40, b".12345", b".1234"]
    cases = []
    for _ in range(ctx.n(6000, 50000)):
        n = f.rng.choice(lims)
        m = n or 256
        s = b"".join(f.rng.choice(parts) for _ in range(f.rng.randint(1, 12)))
        k = f.rng.random()
        if k < 0.7:   # near the limit
            want = max(1, m + f.rng.choice([-2, -1, 0, 1, 2, 3, 8, 30]))
            pos = f.rng.choice([0, len(s) // 2, s.rfind(b".") if b"." in s else 0])
            if len(s) < want: s = s[:pos] + b"q" * (want - len(s)) + s[pos:]
            elif f.rng.random() < 0.5: s = s[:want]
            else: s = s[-want:]
        cases.append(f.case(f.seq(f_max(n)), s[:960], ["fun", "max"]))
    f.run("around the limit", cases)
    f.run("files", [f.case(f.seq(f_max(f.rng.choice(lims[:16]))), (fname(f.rng, n=10, chars=parts) + b"w" * f.rng.randint(0, 60) + f.rng.choice([b"", b".c", b".tar.gz"]))[:255], ["fun", "max"], "file")
                    for _ in range(ctx.n(1000, 8000))])
    f.run("warnings", [f.case(f.seq(f_max(f.rng.choice([1, 2, 3, 5, 8, 12]))), f.rng.choice([b"a", b"abc", b"", b"a.b"]) + b"." + b"e" * f.rng.randint(0, 14) + f.rng.choice([b"", b".gz"]), ["fun", "max", "warn"], single=True)
                       for _ in range(ctx.n(250, 2000))])


def c15(ctx, f):
    model(ctx, "MCf_lower")
    if ctx.thorough: model(ctx, "MCf_lower_deep")
    s = f.seq(f_lower())
    ask = ["fun", "lower", "twice"]
    f.lines("every byte", s, strings(ALPHA, 1), ask)
    f.lines("all pairs", s, (bytes(t) for t in itertools.product(ctx.n(range(1, 256, 3), ALPHA), repeat=2)), ask)
    f.lines("letters", s, strings(b"AZaz@[", ctx.n(5, 6)), ask)
    f.lines("long", s, [rname(f.rng, 40) for _ in range(ctx.n(3000, 20000))], ask)
    for loc in ("de_DE.utf8", "C.utf8"):
        f.run("in " + loc, [dict(f.case(s, x, ask), locale=loc) for x in [bytes([b]) for b in ALPHA] + [rname(f.rng, 20) for _ in range(300)]])
    f.run("files", [f.case(s, x, ask, "file") for x in [b"X" + bytes([b]) + b"Y" for b in ALPHA if b != 0x2f] + [fname(f.rng) for _ in range(ctx.n(800, 6000))]])


LEADS = [0x41, 0x7f, 0x80, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]


def c16(ctx, f):
    model(ctx, "MCf_utf")
    if ctx.thorough: model(ctx, "MCf_utf_deep")
    tabs = [UNI, table({0x41: b"xy", 0x20a0: b"", 0x20ac: b"EUR", 0xe4: b"ae", 0x10ffff: b"M", 0x110000: b"N", 0x1fffff: b"O", 0x7f: b"", 0x80: b"hi"}),
            table({0x41: b"xy", 0xe4: b"", 0x2010: b"-"}, b"??"), table({}), table({}, b"z")]
    for k, t in enumerate(tabs):
        s = f.seq(f_utf(t))
        nm = "shipped table" if k == 0 else "table %d" % k
        ask = ["fun", "utf"]
        f.lines(nm + ": all short strings", s, strings([0x41, 0x80, 0xc3, 0xe2, 0xf0], ctx.n(4, 6)), ask)
        f.lines(nm + ": leads and continuations", s, (bytes(t) for n in (1, 2, 3) for t in itertools.product(LEADS, repeat=n) if n < 3 or f.rng.random() < ctx.n(0.2, 1)), ask)
        cps = list(range(1, 0x300)) + list(range(0x2000, 0x2070)) + [c for b in range(0x800, 0x110000, ctx.n(0x1321, 0x111)) for c in (b, b + 1)] + \
            [0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff]
        from tables import enc
        f.lines(nm + ": characters", s, [x for c in cps + [0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7ffffffe] if c != 10 for x in (enc(c), b"a" + enc(c) + b"b")], ask)
        f.lines(nm + ": cut short", s, [x for c in f.rng.sample(cps, ctx.n(60, 400)) + [0x10ffff, 0x110000, 0x3ffffff, 0x7ffffffe] for e in [enc(c)] for n in range(1, len(e)) for x in (e[:n], e[:n] + b"z", e[:n] + enc(0xe4), e[:n] + e, e + e[n:])], ask)
        f.lines(nm + ": mixed", s, [rname(f.rng, 20) for _ in range(ctx.n(1500, 12000))], ask)
        f.run(nm + ": files", [f.case(s, fname(f.rng, n=20), ask, "file") for _ in range(ctx.n(400, 4000))])
    sh = shipped(f)
    f.run("sequence utf_8", [f.case(sh["utf_8"], x, ["fun"], "line", "utf_8") for x in (rname(f.rng, 20) for _ in range(ctx.n(2000, 12000)))])


def c17(ctx, f):
    model(ctx, "MCf_latin")
    s = f.seq(f_iso())
    two = [bytes([a, b]) for a in range(1, 256) for b in range(128, 256) if ctx.thorough or (a * 7 + b) % 9 == 0]
    f.lines("latin-1: every byte", s, [x + bytes([b]) + y for b in ALPHA for x in (b"", b"a", b"\xc3") for y in (b"", b"z", b"\xa4")], ["fun", "latin"])
    f.lines("latin-1: pairs", s, two, ["fun", "latin"])
    f.lines("latin-1: mixed", s, [rname(f.rng, 30) for _ in range(ctx.n(3000, 20000))], ["fun", "latin"])
    f.run("latin-1: files", [f.case(s, fname(f.rng, n=20), ["fun", "latin"], "file") for _ in range(ctx.n(600, 5000))])
    for k, t in enumerate([CP, table({0xe4: b"ae", 0x41: b"no", 0xff: b"", 0x80: b"EUR"}), table({0xe4: b"ae", 0x41: b"no", 0xff: b""}, b"??"), table({}), table({}, b"z")]):
        q = f.seq(f_iso(t))
        f.lines("table %d" % k, q, [x + bytes([b]) + y for b in ALPHA for x in (b"", b"a") for y in (b"", b"\xa4")] + [rname(f.rng, 30) for _ in range(ctx.n(1200, 9000))], ["fun"])
    sh = shipped(f)
    f.run("sequence iso8859_1", [f.case(sh["iso8859_1"], x, ["fun"], "line", "iso8859_1") for x in two + [rname(f.rng, 20) for _ in range(ctx.n(1500, 9000))]])
    # the legacy sequence reads every byte once
    def known(c, d):
        if c.get("name") == "iso8859_1-legacy" and d["broken"] == ["legacy"] and any(128 <= b < 160 for b in c["in"]):
            for k in ctx.known:
                if k["id"] == "legacy-twice" and k["status"] == "known":
                    ctx.known_hit.add("legacy-twice")
                    return True
        return False
    f.C.known_filter = known
    lo = [bytes([b]) for b in range(160, 256)]
    f.run("sequence iso8859_1-legacy, Latin-1 bytes", [f.case(sh["iso8859_1-legacy"], x, ["fun", "legacy"], "line", "iso8859_1-legacy") for x in
          [bytes([b]) for b in ALPHA if b < 128 or b >= 160] + [x for x in (rname(f.rng, 20) for _ in range(ctx.n(1500, 9000))) if not any(128 <= b < 160 for b in x)]])
    f.run("sequence iso8859_1-legacy, bytes 0x80-0x9f", [f.case(sh["iso8859_1-legacy"], bytes([b]), ["fun", "legacy"], "line", "iso8859_1-legacy") for b in range(128, 160)])
    f.run("sequence iso8859_1-legacy, all bytes", [f.case(sh["iso8859_1-legacy"], x, ["fun"], "line", "iso8859_1-legacy") for x in two + [rname(f.rng, 20) for _ in range(ctx.n(1000, 9000))]])


def rfilter(rng):
    x = rng.random()
    def tab():
        n = rng.randint(0, 8)
        rows = {}
        for _ in range(n):
            k = rng.choice(list(range(1, 10)) + list(range(11, 256)) + [0xe4, 0x2010, 0x20ac, 0x1f600])
            rows[k] = rng.choice([b"", b"_", b"-", b"a", b"b c", b"xyz", b"\xe4", "ä".encode(), b"%41", b".", b"A", b"+", b"\xc3", b"\xe2\x82"])
        return table(rows, rng.choice([None, None, None, b"_", b"?", b"ab"]))
    if x < 0.2: return f_safe(rng.choice([SAFE, tab(), tab()]))
    if x < 0.4: return f_iso(rng.choice([ISO, CP, tab(), tab()]))
    if x < 0.6: return f_utf(rng.choice([UNI, tab(), tab()]))
    if x < 0.7: return f_uncgi()
    if x < 0.78: return f_lower()
    if x < 0.9: return f_wipe(rng.random() < 0.5)
    return f_max(rng.choice([3, 8, 20, 0]))


def c18(ctx, f):
    common.model_check(ctx, "MC_Filters", "MCf_compose.cfg")
    cases = []
    for _ in range(ctx.n(250, 1500)):
        q = f.seq(*[rfilter(f.rng) for _ in range(f.rng.choice([1, 2, 2, 3, 3, 4, 6]))])
        names = [rname(f.rng, 10) for _ in range(ctx.n(40, 60))]
        cases += [f.case(q, x, ["fun"]) for x in names]
        # a name again, after others: the result may not depend on what came before
        cases += [f.case(q, x, ["fun"]) for x in f.rng.sample(names, 6)]
        cases += [f.case(q, fname(f.rng), ["fun"], "file") for _ in range(6)]
    f.run("random sequences", cases)
    cases = []
    for _ in range(ctx.n(60, 400)):
        # one filter kind chained through tables without a default
        kind = f.rng.choice([f_safe, f_iso, f_utf])
        keys = [0x41, 0x42, 0x43, 0x20, 0x2e, 0xe4, 0xe5, 0xe6, 0xff, 0x80]
        tabs = [table({k: f.rng.choice([b"A", b"B", b"C", b"\xe4", b"\xe5", b"x", b"", b"ABC", b"\xe4\xe5"]) for k in f.rng.sample(keys, f.rng.randint(1, 5))}, b"_" if i == 2 and f.rng.random() < 0.6 else None) for i in range(3)]
        q = f.seq(*[kind(t) for t in tabs])
        al = [bytes([k]) for k in keys] + [utf(k) for k in keys if k > 127]
        cases += [f.case(q, b"".join(f.rng.choice(al) for _ in range(f.rng.randint(1, 8))), ["fun"]) for _ in range(30)]
    f.run("chained tables", cases)
    sh = shipped(f)
    for n in SHIPPED:
        bn = "" if n == "default" else n
        f.run("shipped " + n, [f.case(sh[n], rname(f.rng, 20), ["fun"], "line", bn) for _ in range(ctx.n(600, 5000))])


CHECKS = {"C%d" % k: F.check(globals()["c%d" % k]) for k in range(11, 19)}
