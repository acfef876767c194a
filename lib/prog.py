"""Complete runs of the program in generated worlds, checked against TraceProgram."""
import errno, os, re, shutil, subprocess, tempfile
import common, walk
from common import log

SYS = ("/dsys/", "/etc/detoxrc", "/usr/local/", "/usr/share/detox")
SYSCONF = ["/dsys/etc/detoxrc", "/etc/detoxrc", "/usr/local/etc/detoxrc"]
SYSDATA = ["/dsys/share/detox/", "/usr/share/detox/", "/usr/local/share/detox/"]
ADDROW = re.compile(rb"^(Failed to add row 0x|Unable to read translation table: )[^\n]*\n", re.M)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(text)


def run_world(sc):
    """In a worker. sc:
    argv (bytes, @TOP@ stands for a scratch directory), inlinebin, posix, files {path: text} (paths as the program writes them; @TOP@),
    home, xdg (bytes or None), dseq (bytes or None), tree, cwd, stdin, locale, perm."""
    top = os.path.join(common.WORK.encode(), b"r")
    os.mkdir(top)
    cfgd = os.path.join(top, b"c")       # what @TOP@ stands for
    sysd = os.path.join(top, b"s")
    os.mkdir(cfgd); os.mkdir(sysd)
    base = os.path.join(top, b"root")
    os.mkdir(base)
    wdir = os.path.join(base, b"w")
    os.mkdir(wdir)
    walk.make_tree(wdir, sc.get("tree", ()))
    ents, objs, order = walk.scan(base)
    num = {ino: k + 1 for k, ino in enumerate(order)}
    cwd = os.path.join(wdir, sc.get("cwd", b""))
    cwdino = os.stat(cwd).st_ino
    data = {}
    for d, n, i in ents: pass
    for p, t, extra in sc.get("tree", ()):
        q = os.path.join(wdir, p)
        if t == "f" and sc.get("data"):
            data[num[os.lstat(q).st_ino]] = open(q, "rb").read()
    noread = []
    for p, m in sc.get("perm", ()):
        noread.append(num[os.stat(os.path.join(wdir, p)).st_ino])
        os.chmod(os.path.join(wdir, p), m)
    S = lambda b: b.replace(b"@TOP@", cfgd)
    files = []
    for p, t in sc.get("files", {}).items():
        if isinstance(p, str): p = p.encode()
        p, t = S(p), S(t)
        if p.decode("latin-1").startswith(SYS): real = sysd + p
        elif p.startswith(b"/"): real = p
        else: real = os.path.join(cwd, p)
        put(real, t)
        files.append({"p": list(p), "t": list(t)})
    for p in sc.get("unreadable", ()):
        p = S(p.encode() if isinstance(p, str) else p)
        real = sysd + p if p.decode("latin-1").startswith(SYS) else p
        if not os.path.exists(real): put(real, b"not to be read {")
        os.chmod(real, 0)
        files = [f for f in files if bytes(f["p"]) != p]
    for p in sc.get("asdirs", ()):   # directories where files are expected
        p = S(p)
        os.makedirs(sysd + p if p.decode("latin-1").startswith(SYS) else p)
    argv = [S(a) for a in sc["argv"]]
    logf = os.path.join(top, b"log")
    env = common.base_env({"DSHIM_LOG": os.fsdecode(logf), "DSHIM_ROOT": os.fsdecode(base), "LD_PRELOAD": sc["_shim"], "DSHIM_SYS": os.fsdecode(sysd), "LC_ALL": sc.get("locale", "C")})
    for k, v in (("HOME", sc.get("home")), ("XDG_CONFIG_HOME", sc.get("xdg")), ("DETOX_SEQUENCE", sc.get("dseq"))):
        env.pop(k, None)
        if v is not None: env[k] = os.fsdecode(S(v))
    if sc.get("posix"): env["POSIXLY_CORRECT"] = "1"
    exe = sc["_exe"]
    argv0 = None
    if sc.get("inlinebin"):
        exe = os.path.join(os.path.dirname(exe), "inline-detox")
    if sc.get("argv0"): argv0 = sc["argv0"]
    before = set(os.listdir(top))
    snap = snapshot(cfgd, sysd)
    if sc.get("outmax"): env["DSHIM_OUTMAX"] = str(sc["outmax"])
    if sc.get("broken"):   # (bytes that can be read, errno, name or None for stdin)
        k, e, n = sc["broken"]
        env["DSHIM_RFAIL"] = "%d:%d:%s" % (k, e, walk.hexname(n) if n else "-")
    r = common.run([exe] + argv, cwd=cwd, env=env, stdin=sc.get("stdin", b""), argv0=argv0, slow=sc.get("slow", 0), outfile=walk.outfile(sc, top), infile=S(sc["stdin_from"]) if sc.get("stdin_from") else None)
    extra = set(os.listdir(top)) - before - {b"log", b"out"} or snapshot(cfgd, sysd) != snap
    for p, m in sc.get("perm", ()): os.chmod(os.path.join(wdir, p), 0o644)
    e2, o2, _ = walk.scan(base)
    ev, odf = walk.events(logf, num)
    rfail = []
    for line in (open(logf, "rb").read().split(b"\n") if os.path.exists(logf) else ()):
        w = line.split(b" ")
        if w[0] != b"I": continue
        ino, path = int(w[1]), bytes(walk.unhex(w[3]))
        if not path or ino in num: rfail.append({"i": num.get(ino, 0), "k": sc["broken"][0], "e": errno.errorcode[int(w[2])]})
        for f in files:
            if bytes(f["p"]) == path and ino not in num: f["t"] = [256]
    if sc.get("stdin_from"): rfail.append({"i": 0, "k": 0, "e": "EISDIR"})
    for p in sc.get("asdirs", ()): files.append({"p": list(S(p)), "t": [256]})
    changed = []
    for ino, o in objs.items():
        n = o2.get(ino)
        if n is None or n[0] != o[0] or n[1] != o[1] or n[2] != o[2]:
            if not (sc.get("perm") and n is not None and n[0] == o[0] and n[2][2:] == o[2][2:]): changed.append(num[ino])
    if extra: changed.append(0)
    opt = lambda v: [] if v is None else [list(S(v))]
    rec = {"inlinebin": bool(sc.get("inlinebin")) or (sc.get("argv0") is not None and os.path.basename(sc["argv0"]) == "inline-detox"), "argv": [list(a) for a in argv], "posix": bool(sc.get("posix")), "files": files,
           "home": opt(sc.get("home")), "xdg": opt(sc.get("xdg")), "dseq": opt(sc.get("dseq")), "lcall": list(sc.get("locale", "C").encode()), "stdin": list(sc.get("stdin", b"")),
           "version": list(sc["_version"].encode()), "data": [list(data.get(k + 1, b"")) for k in range(len(order))], "noread": noread,
           "obj": [{"t": objs[i][0], "nl": objs[i][1], "c": 0, "to": list(objs[i][2][1]) if objs[i][0] == "l" else [],
                    "par": (num[objs[i][3]] if len(objs[i]) > 3 else 1) if objs[i][0] == "d" else 0} for i in order],
           "ent": [{"d": num[d], "n": list(n), "i": num[i]} for d, n, i in ents], "cwd": num[cwdino], "ci": False, "settled": [], "odf": odf, "rdf": walk.breaks(logf, num), "rfail": rfail, "wlim": sc.get("outmax", -1), "killed": False, "goal": [], "env": [], "abs": list(base), "root": 1,
           "ev": ev, "out": list(r.out), "err": list(ADDROW.sub(b"", walk.strip_noise(r.err))), "exit": r.code, "sig": r.sig,
           "fin": [{"d": num.get(d, 0), "n": list(n), "i": num.get(i, 0)} for d, n, i in e2], "changed": changed}
    if r.sig: rec["crash"] = r.err[-1500:].decode("latin-1")
    subprocess.run(["chmod", "-R", "u+rwx", top.decode()], stderr=subprocess.DEVNULL)
    shutil.rmtree(top)
    return rec


def snapshot(*ds):
    out = []
    for d in ds:
        for p, dn, fn in os.walk(d):
            for f in fn:
                st = os.lstat(os.path.join(p, f))
                out.append((p, f, st.st_ino, st.st_size, st.st_mtime_ns, st.st_mode))
    return sorted(out)


def weight(r):
    return 60 + sum(len(f["t"]) for f in r["files"]) + len(r["stdin"]) // 2 + sum(len(d) for d in r["data"]) // 2 + 4 * len(r["ent"]) * (1 + len(r["ev"]))


class World:
    def __init__(self, ctx, flavour="plain"):
        self.ctx, self.flavour = ctx, flavour
        self.exe = common.build(ctx, "detox", flavour)
        self.shim = common.build_shim(ctx)
        n, v = common.package_string()
        self.version = "%s %s" % (n, v)
        p = os.path.join(ctx.dir, "noseqs.ndjson")
        common.write_ndjson(p, [{"f": []}])
        self.env = {"SEQS": p}
        self.wait = []
        ctx.flushers.append(self.flush)

    def record(self, scs):
        for k, sc in enumerate(scs):
            sc["_exe"], sc["_shim"], sc["_version"] = self.exe, self.shim, self.version
        recs = common.pmap(self.ctx, run_world, scs)
        for k, r in enumerate(recs): r["id"] = k
        return recs

    def check(self, scs, name):
        """Families wait until there are enough of them to be worth a run of TLC."""
        for s in scs:
            s["_fam"] = name
            self.wait.append(s)
            if len(self.wait) >= 6000: self.flush()

    def flush(self):
        w, self.wait = self.wait, []
        if w: self.check_now(w)

    def check_now(self, scs):
        ctx = self.ctx
        recs = self.record(scs)
        fams = {}
        for sc, r in zip(scs, recs): fams.setdefault(sc["_fam"], []).append((sc, r))
        for name, rs in fams.items():
            ctx.family(name, len(rs), exits={str(k): sum(1 for _, r in rs if r["exit"] == k) for k in sorted({r["exit"] for _, r in rs})},
                       distinct_outputs=len({(bytes(r["out"]), bytes(r["err"])[:40]) for _, r in rs}))
            for sc, _ in rs[:1] + rs[len(rs) // 2:len(rs) // 2 + 1]:
                ctx.sample({"family": name, "argv": sc["argv"], "files": {k: v[:200] for k, v in list(sc.get("files", {}).items())[:3]}, "env": {"DETOX_SEQUENCE": sc.get("dseq")}}, 16)
        bad, _ = common.validate(ctx, "TraceProgram", "TraceProgram.cfg", recs, env=self.env, weight=weight)
        if not bad: return
        idx = sorted(bad)[:40]
        recs2 = self.record([dict(scs[k]) for k in idx])
        for r, k in zip(recs2, idx): r["id"] = k
        bad2, out = common.validate(ctx, "TraceProgram", "TraceProgram.cfg", recs2, env=self.env, weight=weight, diag=True)
        diags = {}
        for d in common.printed(out, "DIAG"): diags.setdefault(d["tid"], []).append(d)
        for r in recs2:
            k = r["id"]
            if k not in bad2: continue
            lab, best = walk.summarise(diags.get(k, []))
            want = bytes(best["want"]) if best else b""
            sc = {a: b for a, b in scs[k].items() if not a.startswith("_")}
            ctx.violation("%s: run of %s with arguments %s (%s): exit %d signal %d, specified %s; stdout %r%s; stderr %r" % (
                scs[k]["_fam"], "inline-detox" if r["inlinebin"] else "detox", sc["argv"], ",".join(sorted(lab)) or "unexplained", r["exit"], r["sig"],
                (best["stop"] or "work") if best else "?", diffpart(bytes(r["out"]), want)[0], ", specified %r" % diffpart(bytes(r["out"]), want)[1] if want else "", bytes(r["err"])[:200]),
                {"kind": "world", "scenario": sc, "diagnosis": best, "out": bytes(r["out"]), "err": bytes(r["err"]), "exit": r["exit"], "sig": r["sig"]})


def diffpart(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]: n += 1
    n = max(0, n - 30)
    return a[n:n + 120], b[n:n + 120]
