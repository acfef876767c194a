"""Running detox on trees of files, recording what it does, and checking that against TraceWalk."""
import errno, hashlib, json, os, re, shutil, socket, stat, subprocess, tempfile
import common
from common import log

NOISE = re.compile(rb"^detox: warning: [^\n]*\n", re.M)
NOISE2 = re.compile(rb"warning: max_length \d+ is less than required file length for '.*?'\.  giving up\.\n", re.S)


def strip_noise(err):
    return NOISE.sub(b"", NOISE2.sub(b"", err))


def make_tree(base, tree):
    """tree: list of (path, type, extra); types d f l p s h(ard link)"""
    for path, t, extra in tree:
        p = os.path.join(base, path)
        if t == "d":
            os.mkdir(p)
        elif t == "f":
            fd = os.open(p, os.O_CREAT | os.O_WRONLY | os.O_EXCL, 0o644)
            os.write(fd, extra if extra is not None else path)
            os.close(fd)
        elif t == "l":
            os.symlink(extra, p)
        elif t == "p":
            os.mkfifo(p)
        elif t == "s":
            s = socket.socket(socket.AF_UNIX)
            fd = os.open(os.path.dirname(p) or b".", os.O_RDONLY)
            s.bind("/proc/self/fd/%d/sock" % fd)
            os.rename(os.path.join(os.path.dirname(p), b"sock"), p)
            os.close(fd)
            s.close()
        elif t == "h":
            os.link(os.path.join(base, extra), p)
        else:
            raise ValueError(t)


def scan(base):
    """-> list of (dir_ino, name, ino), dict ino -> (type, nlink, identity)"""
    ents, objs = [], {}
    st = os.lstat(base)
    objs[st.st_ino] = ("d", st.st_nlink, ("d", st.st_mode))
    todo = [(base, st.st_ino)]
    order = [st.st_ino]
    while todo:
        p, i = todo.pop(0)
        for n in sorted(os.listdir(p)):
            q = p + b"/" + n
            st = os.lstat(q)
            m = st.st_mode
            ents.append((i, n, st.st_ino))
            if st.st_ino in objs:
                continue
            order.append(st.st_ino)
            if stat.S_ISDIR(m):
                objs[st.st_ino] = ("d", st.st_nlink, ("d", m), i)
                todo.append((q, st.st_ino))
            elif stat.S_ISREG(m):
                with open(q, "rb") as f:
                    objs[st.st_ino] = ("f", st.st_nlink, ("f", m, st.st_size, st.st_mtime_ns, f.read(4096)))
            elif stat.S_ISLNK(m):
                objs[st.st_ino] = ("l", st.st_nlink, ("l", os.readlink(q)))
            else:
                objs[st.st_ino] = ("o", st.st_nlink, ("o", m))
    return ents, objs, order


def hexname(b):
    return b.hex() if b else "-"


def run_scenario(sc):
    """In a worker. sc: see scen.py. Returns a trace record (without seq numbering changes).
    "kill": the run ends abruptly at that call; "kills": so many runs ended abruptly come before the one recorded, which must
    (with "goal") leave what a single run leaves; "others": what other programs do meanwhile, see shim.c."""
    if sc.get("goal"):
        return run_one(sc, run_one({k: v for k, v in sc.items() if k not in ("goal", "kills")})["fin"])
    return run_one(sc)


def run_one(sc, goal=()):
    work = common.WORK.encode()
    top = os.path.join(work, b"r")
    os.mkdir(top)
    base = os.path.join(top, b"root")
    os.mkdir(base)
    wdir = os.path.join(base, sc.get("wname", b"w"))
    os.mkdir(wdir)
    make_tree(wdir, sc["tree"])
    if sc.get("others"):
        pool = os.path.join(base, b"pool")
        os.mkdir(pool)
        make_tree(pool, sc["others"]["pool"])
    ents, objs, order = scan(base)
    num = {ino: k + 1 for k, ino in enumerate(order)}
    nox = []
    for p, m in sc.get("perm", ()):
        st = os.lstat(os.path.join(wdir, p))
        if stat.S_ISDIR(st.st_mode) and not m & 0o100: nox.append(num[st.st_ino])
    for p, m in reversed(sc.get("perm", ())):
        os.chmod(os.path.join(wdir, p), m)
    cwd = os.path.join(wdir, sc.get("cwd", b""))
    cwdino = os.stat(cwd).st_ino
    logf = os.path.join(top, b"log")
    args = [a.replace(b"@ABS@", wdir) for a in sc["args"]]
    env = {"DSHIM_LOG": logf, "DSHIM_ROOT": base, "DSHIM_ORDER": str(sc.get("order", 0)), "DSHIM_SEED": str(sc.get("seed", 0)),
           "LD_PRELOAD": sc["_shim"], "HOME": "/nonexistent", "LC_ALL": sc.get("locale", "C"), "DSHIM_SYS": sc["_sys"]}
    if sc.get("relist"): env["DSHIM_RELIST"] = "1"
    if sc.get("dtunk"): env["DSHIM_DTUNK"] = "1"
    if sc.get("ci"): env["DSHIM_CI"] = "1"
    faults = ["rename:%s:%d" % (hexname(n), e) for n, e in sc.get("rfault", ())] + \
             ["opendir:%s:%d" % (hexname(n), e) for n, e in sc.get("ofault", ())] + \
             ["readdir:%s:%d" % (hexname(n), e) for n, e in sc.get("dfault", ())] + \
             ["look:%s:%d" % (hexname(n), e) for n, e in sc.get("lfault", ())]
    if faults: env["DSHIM_FAULT"] = ",".join(faults)
    cmd = [sc["_exe"]]
    if sc.get("conf", "") != "builtin":
        cmd += ["-f", sc["_conf"], "-s", "s%d" % sc["seq"]]
    elif sc.get("name"):
        cmd += ["-s", sc["name"]]
    for o in sc.get("opts", "v"):
        cmd.append({"sp": "--special"}.get(o, "-" + o))
    if sc.get("sp"): cmd.append("--special")
    cmd += ["--"] + args
    before = set(os.listdir(top))
    limits = sc.get("nofile")
    if limits:
        cmd = ["/bin/sh", "-c", 'ulimit -n %d; exec "$0" "$@"' % limits] + cmd
    env = common.base_env({k: v if isinstance(v, str) else os.fsdecode(v) for k, v in env.items()})
    settled = []
    if sc.get("twice"):
        common.run(cmd, cwd=cwd, env=env, stdin=b"")
        moved, _ = events(logf, num)
        settled = [(e["d2"], e["n2"]) for e in moved if e["k"] == "rename" and e["e"] == ""]
        if os.path.exists(logf): os.unlink(logf)
        ents, objs, _ = scan(base)
        settled = [{"d": num.get(d, 0), "i": num.get(i, 0)} for d, n, i in ents if (num.get(d, 0), list(n)) in settled]
    for k in sc.get("kills", ()):
        common.run(cmd, cwd=cwd, env=dict(env, DSHIM_KILL=str(k)), stdin=b"")
        if os.path.exists(logf): os.unlink(logf)
        ents, objs, _ = scan(base)
    if sc.get("kill"): env["DSHIM_KILL"] = str(sc["kill"])
    if sc.get("others"):
        dirs = [pool] + [os.path.join(wdir, d) for d in sc["others"]["dirs"]]
        env["DSHIM_DIRS"] = os.fsdecode(b":".join(dirs))
        env["DSHIM_OTHERS"] = ",".join("%s%d:%d:%s:%d:%s" % ("t" if isinstance(w, int) else "l", w if isinstance(w, int) else os.lstat(os.path.join(wdir, w)).st_ino,
                                                            a, hexname(n), b, hexname(m)) for w, a, n, b, m in sc["others"]["ops"])
    if sc.get("outmax"): env["DSHIM_OUTMAX"] = str(sc["outmax"])
    r = common.run(cmd, cwd=cwd, env=env, stdin=b"", outfile=outfile(sc, top))
    # give ourselves access again
    if sc.get("perm"):
        subprocess.run(["chmod", "-R", "u+rwx", base], stderr=subprocess.DEVNULL)
    e2, o2, _ = scan(base)
    ev, odf = events(logf, num)
    rdf = breaks(logf, num)
    killed = bool(sc.get("kill")) and r.sig == 9 and b"K\n" in open(logf, "rb").read()
    changed = []
    for ino, o in objs.items():
        n = o2.get(ino)
        if sc.get("others") and o[0] == "d" and n is not None and n[0] == "d" and n[2] == o[2]: continue   # the number of links counts directories inside
        if n is None or n[0] != o[0] or n[1] != o[1] or (n[2] != o[2] and not (sc.get("perm") and o[0] == "d")):
            if not (sc.get("perm") and n is not None and n[0] == o[0] and n[1] == o[1] and n[2][2:] == o[2][2:]):
                changed.append(num[ino])
    # anything created outside the tree
    if set(os.listdir(top)) - before - {b"log", b"out"}:
        changed.append(0)
    rec = {"obj": [{"t": objs[i][0], "nl": objs[i][1], "c": 0,
                    "to": list(objs[i][2][1]) if objs[i][0] == "l" else [],
                    "par": (num[objs[i][3]] if len(objs[i]) > 3 else 1) if objs[i][0] == "d" else 0} for i in order],
           "ent": [{"d": num[d], "n": list(n), "i": num[i]} for d, n, i in ents],
           "args": [list(a) for a in args], "cwd": num[cwdino], "seq": sc["seq"], "ign": [list(x) for x in sc.get("ign", ())],
           "r": "r" in sc.get("opts", "v"), "n": "n" in sc.get("opts", "v"), "v": "v" in sc.get("opts", "v"), "sp": bool(sc.get("sp")),
           "ci": bool(sc.get("ci")), "settled": settled, "odf": odf, "rdf": rdf, "nox": nox, "nol": [{"n": list(n), "e": errno.errorcode[e]} for n, e in sc.get("lfault", ())], "wlim": sc.get("outmax", -1), "env": [{"i": e["d"], "ops": e.pop("ops")} for e in ev if "ops" in e],
           "killed": killed, "goal": list(goal), "abs": list(base), "root": 1, "ev": ev, "out": list(r.out),
           "err": list(strip_noise(r.err)), "exit": r.code, "sig": r.sig,
           "fin": [{"d": num.get(d, 0), "n": list(n), "i": num.get(i, 0)} for d, n, i in e2], "changed": changed}
    if r.sig == 97:
        rec["san"] = r.err[-1500:].decode("latin-1")
    subprocess.run(["rm", "-rf", top.decode()]) if sc.get("perm") else shutil.rmtree(top)
    if os.path.exists(top):
        subprocess.run(["chmod", "-R", "u+rwx", top.decode()])
        shutil.rmtree(top, ignore_errors=True)
    return rec


def outfile(sc, top):
    """"outmax": stdout has room for that many bytes"""
    if "outmax" not in sc: return None
    return "/dev/full" if sc["outmax"] == 0 else os.path.join(top, b"out").decode()


def unhex(x):
    return [] if x == b"-" else list(bytes.fromhex(x.decode()))


def breaks(logf, num):
    """Directories whose listing broke off"""
    out = []
    if os.path.exists(logf):
        for line in open(logf, "rb").read().split(b"\n"):
            w = line.split(b" ")
            if w[0] == b"D":
                out.append({"i": num.get(int(w[1]), 0), "e": errno.errorcode.get(int(w[2]), "?"), "seen": [unhex(x) for x in w[3:]]})
    return out


def events(logf, num):
    ev, odf = [], []
    if os.path.exists(logf):
        for line in open(logf, "rb").read().split(b"\n"):
            w = line.split(b" ")
            if w[0] == b"R":
                de, ne = int(w[5]), ""
                if de: ne = errno.errorcode.get(de, "?")
                un = lambda x: [] if x == b"-" else list(bytes.fromhex(x.decode()))
                ev.append({"k": "rename", "d": num.get(int(w[1]), 0), "n": un(w[2]), "d2": num.get(int(w[3]), 0), "n2": un(w[4]), "e": ne})
            elif w[0] == b"V":
                ev.append({"k": "vanish", "d": num.get(int(w[2]), 0), "n": unhex(w[3]), "d2": num.get(int(w[4]), 0), "n2": unhex(w[5]), "e": ""})
            elif w[0] == b"E":
                d = num.get(int(w[1]), 0)
                if not ev or ev[-1]["k"] != "env" or ev[-1]["d"] != d:
                    ev.append({"k": "env", "d": d, "n": [], "d2": 0, "n2": [], "e": "", "ops": []})
                ev[-1]["ops"].append({"d": num.get(int(w[2]), 0), "n": unhex(w[3]), "d2": num.get(int(w[4]), 0), "n2": unhex(w[5])})
            elif w[0] == b"M":
                ev.append({"k": w[1].decode(), "d": 0, "n": [], "d2": 0, "n2": [], "e": "EPERM"})
            elif w[0] == b"O":
                i = num.get(int(w[1]), 0)
                if not any(x["i"] == i for x in odf):
                    odf.append({"i": i, "e": errno.errorcode.get(int(w[2]), "?")})
    return ev, odf


class Runner:
    def __init__(self, ctx, book, flavour="plain"):
        self.ctx, self.book = ctx, book
        self.flavour = flavour
        self.exe = common.build(ctx, "detox", flavour)
        self.shim = common.build_shim(ctx)
        self.confdir = tempfile.mkdtemp(prefix="conf.", dir=ctx.dir)
        os.chmod(self.confdir, 0o755)
        self.sys = ctx.sub("nosys")
        self.wait = []
        ctx.flushers.append(self.flush)
        self.confs = {}

    def conf(self, ign):
        ign = tuple(sorted(ign))
        if ign not in self.confs:
            p = os.path.join(self.confdir, "c%d" % len(self.confs))
            text = self.book.config(self.confdir.encode(), ign)
            with open(p, "wb") as f:
                f.write(text)
            for n, t in self.book.tables:
                os.makedirs(os.path.dirname(os.path.join(self.confdir.encode(), n)), exist_ok=True)
                with open(os.path.join(self.confdir.encode(), n), "wb") as f:
                    f.write(t)
            self.confs[ign] = p
        return self.confs[ign]

    def seqfile(self):
        p = os.path.join(self.confdir, "seqs.ndjson")
        common.write_ndjson(p, self.book.records())
        return p

    def prepare(self, scs):
        for k, sc in enumerate(scs):
            sc["id"] = k
            sc["_exe"], sc["_shim"], sc["_sys"] = self.exe, self.shim, self.sys
            sc["_conf"] = self.conf(sc.get("ign", ()))

    def record(self, scs):
        self.prepare(scs)
        recs = common.pmap(self.ctx, run_scenario, scs)
        for k, r in enumerate(recs):
            r["id"] = k
        return recs

    def check(self, scs, labels, name):
        """Run all scenarios, validate, report rejections that carry one of labels (None: any).
        Families wait until there are enough of them to be worth a run of TLC."""
        self.labels = labels
        for s in scs:
            s["_fam"] = name
            self.wait.append(s)
            if len(self.wait) >= 6000: self.flush()

    def flush(self):
        w, self.wait = self.wait, []
        if w: self.check_now(w)

    def check_now(self, scs):
        ctx, labels = self.ctx, self.labels
        recs = self.record(scs)
        fams = {}
        for sc, r in zip(scs, recs): fams.setdefault(sc["_fam"], []).append(r)
        for name, rs in fams.items():
            ctx.family(name, len(rs), renames=sum(len(r["ev"]) for r in rs), effective=sum(1 for r in rs if r["ev"] or r["out"] or r["err"]))
            for r in rs[:2]:
                ctx.sample({"family": name, "args": [bytes(a) for a in r["args"]], "events": [(bytes(e["n"]), bytes(e["n2"]), e["e"]) for e in r["ev"]][:6],
                            "entries": [bytes(e["n"]) for e in r["ent"]][:12]}, 12)
        env = {"SEQS": self.seqfile()}
        bad, _ = common.validate(ctx, "TraceWalk", "TraceWalk.cfg", recs, env=env, weight=weight)
        if not bad:
            return
        # is it the same again?
        again = [dict(scs[k]) for k in sorted(bad)][:60]
        idx = sorted(bad)[:60]
        recs2 = self.record(again)
        for r, k in zip(recs2, idx):
            r["id"] = k
        bad2, out = common.validate(ctx, "TraceWalk", "TraceWalk.cfg", recs2, env=env, weight=weight, diag=True)
        diags = {}
        for d in common.printed(out, "DIAG"):
            diags.setdefault(d["tid"], []).append(d)
        for k in sorted(bad2):
            lab, best = summarise(diags.get(k, []))
            rec = next(r for r in recs2 if r["id"] == k)
            if rec["sig"] and not rec["killed"]: lab.add("crash")
            if labels is None or lab & labels or not lab or "crash" in lab:
                sc = {a: b for a, b in scs[k].items() if not a.startswith("_")}
                ctx.violation("%s: run %d is not a behaviour of the specification (%s): args %s; %s" % (
                    scs[k]["_fam"], k, ",".join(sorted(lab)) or "unexplained", [bytes(a) for a in rec["args"]], describe(rec, best)),
                    {"kind": "walk", "scenario": sc, "record": rec, "diagnosis": best, "labels": sorted(lab),
                     "sequence": self.book.seqs[sc["seq"] - 1], "flavour": self.flavour})
            else:
                log("rejection of run %d (%s) belongs to other properties" % (k, ",".join(sorted(lab))))


def weight(r):
    return 20 + len(r["ent"]) * 3 + len(r["ev"]) * (10 + len(r["ent"]))


def summarise(ds):
    if not ds:
        return set(), None
    m = max(d["ri"] + d["oi"] + d["ei"] for d in ds)
    best = [d for d in ds if d["ri"] + d["oi"] + d["ei"] == m]
    lab = set()
    for d in best:
        lab |= set(d["labels"])
    return lab, best[0]


def describe(rec, best):
    s = "made %d renames" % len(rec["ev"])
    if best:
        s += ", explained %d" % best["ri"]
        if best["ri"] < len(rec["ev"]):
            e = rec["ev"][best["ri"]]
            s += "; next: %s %r -> %r %s" % (e["k"], bytes(e["n"]), bytes(e["n2"]), e["e"])
    s += "; exit %d sig %d; stderr %r" % (rec["exit"], rec["sig"], bytes(rec["err"])[:200])
    return s
