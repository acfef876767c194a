"""Cleaning many names with the real program and checking the results against TraceFilter."""
import os, re, shutil, tempfile
import common
from common import log

NEWLINE = re.compile(rb"%(25)*(0|%30)([aA]|%[46]1)")   # may decode to a newline: such a line is cleaned on its own
WARN = b"warning: max_length"


def run_batch(job):
    """In a worker: clean a list of names by one process. job: mode line|file."""
    names = job["names"]
    env = common.base_env({"LC_ALL": job.get("locale", "C"), "HOME": "/nonexistent", "LD_PRELOAD": job["shim"], "DSHIM_SYS": job["sys"]})
    sel = ["-f", job["conf"], "-s", "s%d" % job["seq"]] if job.get("conf") else (["-s", job["name"]] if job.get("name") else [])
    if job["mode"] == "line":
        env["DSHIM_ROOT"] = "/nonexistent"
        r = common.run([job["exe"], "--inline"] + sel, cwd=common.WORK, env=env, stdin=b"".join(n + b"\n" for n in names), timeout=60)
        lines = r.out.split(b"\n")
        if len(names) == 1 and r.out.endswith(b"\n"): lines = [r.out[:-1], b""]   # a decoded newline
        ok = r.code == 0 and r.sig == 0 and lines[-1] == b"" and len(lines) == len(names) + 1
        return {"ok": ok, "outs": lines[:-1] if ok else None, "code": r.code, "sig": r.sig, "err": r.err[-1500:], "out": r.out[:2000],
                "warns": r.err.count(WARN), "nlines": len(lines) - 1}
    top = os.path.join(common.WORK.encode(), b"f")
    os.mkdir(top)
    env["DSHIM_ROOT"] = top.decode()
    args = []
    for k, n in enumerate(names):
        d = b"d%d" % k
        os.mkdir(top + b"/" + d)
        os.close(os.open(top + b"/" + d + b"/" + n, os.O_CREAT | os.O_WRONLY, 0o644))
        args.append(d + b"/" + n)
    outs, err, code, sig, warns = [], b"", 0, 0, 0
    for i in range(0, len(args), 400):
        r = common.run([job["exe"]] + sel + ["--"] + args[i:i + 400], cwd=top, env=env, timeout=60)
        code, sig, err, warns = code or r.code, sig or r.sig, err + r.err[-500:], warns + r.err.count(WARN)
    ok = code == 0 and sig == 0
    for k in range(len(names)):
        ls = os.listdir(top + b"/d%d" % k)
        if len(ls) != 1: ok = False
        outs.append(ls[0] if ls else b"")
    shutil.rmtree(top)
    return {"ok": ok, "outs": outs if ok else None, "code": code, "sig": sig, "err": err, "out": b"", "warns": warns, "nlines": len(outs)}


class Cleaner:
    def __init__(self, ctx, book, flavour="plain"):
        self.ctx, self.book, self.flavour = ctx, book, flavour
        self.exe = common.build(ctx, "detox", flavour)
        self.shim = common.build_shim(ctx)
        self.sys = ctx.sub("nosys")
        self.confdir = tempfile.mkdtemp(prefix="conf.", dir=ctx.dir)
        os.chmod(self.confdir, 0o755)
        self._conf = None

    def conf(self):
        if self._conf is None or self._conf[1] != len(self.book.seqs):
            p = os.path.join(self.confdir, "c%d" % len(self.book.seqs))
            text = self.book.config(self.confdir.encode())
            with open(p, "wb") as f: f.write(text)
            for n, t in self.book.tables:
                os.makedirs(os.path.dirname(os.path.join(self.confdir.encode(), n)), exist_ok=True)
                with open(os.path.join(self.confdir.encode(), n), "wb") as f: f.write(t)
            self._conf = (p, len(self.book.seqs))
        return self._conf[0]

    def seqfile(self):
        p = os.path.join(self.confdir, "seqs.ndjson")
        common.write_ndjson(p, self.book.records())
        return p

    def jobs(self, cases, size):
        """cases: list of (seq, mode, name, ask, builtin-sequence-name or None)"""
        groups = {}
        for k, c in enumerate(cases):
            groups.setdefault((c["s"], c["m"], c.get("name"), (c.get("single", False) or (c["m"] == "line" and NEWLINE.search(c["in"]) is not None)) and k, c.get("locale")), []).append(k)
        out = []
        for (s, m, nm, sing, loc), ks in groups.items():
            for i in range(0, len(ks), size):
                part = ks[i:i + size]
                j = {"names": [cases[x]["in"] for x in part], "seq": s, "mode": m, "exe": self.exe, "shim": self.shim, "sys": self.sys, "ks": part}
                if loc: j["locale"] = loc
                if nm is None: j["conf"] = self.conf()
                elif nm: j["name"] = nm
                out.append(j)
        return out

    def clean(self, cases, size=400):
        """Fill in 'out' (and 'w') of every case; returns the list of failed batches narrowed to single names."""
        failed = []
        jobs = self.jobs(cases, size)
        res = common.pmap(self.ctx, run_batch, jobs, chunk=2)
        redo = []
        for j, r in zip(jobs, res):
            if r["ok"]:
                for k, o in zip(j["ks"], r["outs"]):
                    cases[k]["out"] = o
                    cases[k]["w"] = (1 if r["warns"] else 0) if len(j["ks"]) == 1 else 2
            elif len(j["ks"]) == 1:
                failed.append((cases[j["ks"][0]], r))
            else:
                redo.append((j, r))
        if redo:
            single = []
            for j, r in redo[:12]:
                for k in j["ks"]:
                    single.append(dict(j, names=[cases[k]["in"]], ks=[k]))
            hit, lines = set(), {}
            for j, r in zip(single, common.pmap(self.ctx, run_batch, single)):
                k = j["ks"][0]
                if r["ok"]:
                    lines[k] = 1 + r["outs"][0].count(b"\n")
                    cases[k]["out"] = r["outs"][0]
                    cases[k]["w"] = 2
                else:
                    failed.append((cases[k], r))
                    hit.add(k)
            for j, r in redo:
                # a name may decode to more than one line: then the lines only look like too many
                if j["mode"] == "line" and r["code"] == 0 and not r["sig"] and all(k in lines for k in j["ks"]) and sum(lines[k] for k in j["ks"]) == r["nlines"]: continue
                if not hit & set(j["ks"]):
                    failed.append(({"s": j["seq"], "m": j["mode"], "in": b"(batch of %d names)" % len(j["names"]), "names": j["names"], "fam": cases[j["ks"][0]]["fam"]}, r))
        return failed

    def check(self, cases, size=400):
        """cases: see jobs, and fam: the family a case belongs to"""
        ctx = self.ctx
        failed = self.clean(cases, size)
        for c, r in failed[:5]:
            name = c["fam"]
            ctx.violation("%s: cleaning %r with %s fails: exit %d signal %d, %d lines, stderr %r" % (
                name, c["in"], self.seqname(c), r["code"], r["sig"], r["nlines"], r["err"][-300:]), {"kind": "filter", "case": c, "result": r, "flavour": self.flavour})
        two = [c for c in cases if "twice" in c["ask"] and c.get("out") is not None]
        if two:
            again = [dict(c, **{"in": c["out"], "single": False}) for c in two if c["out"] != b"" or c["m"] == "line"]
            idx = [c for c in two if c["out"] != b"" or c["m"] == "line"]
            for c in two: c["out2"] = c["out"]
            for c, a in zip(idx, again):
                a.pop("out", None)
            self.clean(again, size)
            for c, a in zip(idx, again):
                if a.get("out") is not None:
                    c["out2"] = a["out"]
        recs, fams = [], {}
        for k, c in enumerate(cases):
            if c.get("out") is None: continue
            recs.append({"id": k, "s": c["s"], "m": c["m"], "in": list(c["in"]), "out": list(c["out"]), "w": c.get("w", 2),
                         "out2": list(c.get("out2", b"")), "ask": c["ask"]})
            n = fams.setdefault(c["fam"], [0, 0])
            n[0] += 1
            if c["in"] != c["out"]: n[1] += 1
            if c["in"] != c["out"] and n[1] <= 2: ctx.sample({"family": c["fam"], "sequence": self.seqname(c), "in": c["in"], "out": c["out"]}, 24)
        for name, n in fams.items(): ctx.family(name, n[0], changed=n[1])
        env = {"SEQS": self.seqfile()}
        bad, _ = common.validate(ctx, "TraceFilter", "TraceFilter.cfg", recs, env=env, weight=lambda r: 10 + len(r["in"]))
        if not bad: return
        sel = [dict(cases[k]) for k in sorted(bad)][:50]
        for c in sel: c.pop("out", None); c.pop("out2", None)
        self.clean(sel, 1)
        ids = sorted(bad)[:50]
        recs2 = []
        for k, c in zip(ids, sel):
            o = c.get("out", cases[k]["out"])
            # a result that depends on what was cleaned before counts as found in the batch
            recs2.append(dict(id=k, s=c["s"], m=c["m"], **{"in": list(c["in"])}, out=list(cases[k]["out"]), w=cases[k].get("w", 2),
                              out2=list(cases[k].get("out2", b"")), ask=c["ask"]))
        bad2, out = common.validate(ctx, "TraceFilter", "TraceFilter.cfg", recs2, env=env, diag=True)
        diags = {d["tid"]: d for d in common.printed(out, "DIAG")}
        for k in sorted(bad2):
            d = diags.get(k, {"expected": [], "broken": ["?"]})
            c = cases[k]
            name = c["fam"]
            yield_known = self.known(c, d)
            if yield_known: continue
            ctx.violation("%s: %s turns %r into %r%s, breaking %s (specified: %r)" % (
                name, self.seqname(c), c["in"], c["out"], " and that into %r" % c["out2"] if "twice" in d["broken"] else "",
                "/".join(d["broken"]), bytes(d["expected"])),
                {"kind": "filter", "sequence": self.book.seqs[c["s"] - 1], "case": c, "diagnosis": d, "flavour": self.flavour})

    known_filter = None

    def known(self, c, d):
        return self.known_filter(c, d) if self.known_filter else False

    def seqname(self, c):
        if c.get("name"): return "sequence '%s'" % c["name"]
        return "+".join(f["k"] for f in self.book.seqs[c["s"] - 1])
