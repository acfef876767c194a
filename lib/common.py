"""Shared machinery: building detox, running it, running TLC, reporting."""
import atexit, hashlib, json, multiprocessing, os, random, re, selectors, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CPUS = 8
NOBODY = 65534
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

YACC_SHA = "1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823"
LEX_SHA = "f5fac75730c1b97f4b0a79ff78ad97bea34693b77472580d24de6691086f4d1c"

CONFIG_H = """
#define HAVE_GETOPT_LONG 1
#define HAVE_STRUCT_STAT_ST_BLOCKS 1
#define HAVE_DIRENT_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_MALLOC 1
#define HAVE_LSTAT 1
#define STDC_HEADERS 1
#define _GNU_SOURCE 1
#define PACKAGE "detox"
#define PACKAGE_NAME "detox"
#define PACKAGE_TARNAME "detox"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
"""

class CheckError(Exception):
    pass


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="detoxv.", dir=base)
        os.chmod(self.dir, 0o755)
        atexit.register(self.cleanup, os.getpid())
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "models": [], "families": {}}
        self.violations = []
        self.assumptions = []
        self.built = {}
        self.known = load_known()
        self.known_hit = set()
        self.flushers = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self, pid):
        if os.getpid() == pid and self.dir and os.path.basename(self.dir).startswith("detoxv."):
            subprocess.run(["chmod", "-R", "u+rwx", self.dir], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def family(self, name, n=1, **kw):
        if self.violations: raise CheckError("a violation is enough")
        f = self.cov["families"].setdefault(name, {"runs": 0})
        f["runs"] += n
        for k, v in kw.items():
            if isinstance(v, dict) and k in f:
                for a, b in v.items(): f[k][a] = f[k].get(a, 0) + b
            elif isinstance(v, int) and k in f: f[k] += v
            else: f[k] = v

    def flush(self):
        """Validate the families that still wait."""
        for fn in self.flushers: fn()

    def violation(self, what, replay):
        """replay: a JSON-serialisable description sufficient to run the case again."""
        k = len(self.violations)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, k))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier,
                       "case": jsonable(replay)}, f, indent=1)
        self.violations.append({"what": what, "replay": path})
        log("violation: %s" % what)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev["violations"] = self.violations
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(jsonable(ev), f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.prop))
        for k in self.known:
            if k["property"] == self.prop and k["status"] == "known":
                if k["id"] in self.known_hit:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                else:
                    log("known finding %s did not show up in this run" % k["id"])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]["replay"]))
            for v in self.violations[:10]:
                print("  " + v["what"])
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.0fs" % (
            self.prop, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, file=sys.stderr, flush=True)


def jsonable(x):
    if isinstance(x, bytes):
        return {"hex": x.hex(), "text": x.decode("latin-1")}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    return x


def unjson(x):
    if isinstance(x, dict):
        if set(x) == {"hex", "text"}:
            return bytes.fromhex(x["hex"])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


# ---------------------------------------------------------------- building

def _sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def _makefile_sources(text, var):
    text = re.sub(r"\\\n", " ", text)
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), text, re.M)
    if not m:
        return None
    out = []
    for w in m.group(1).split():
        v = re.fullmatch(r"\$[({](\w+)[)}]", w)
        if v:
            out += _makefile_sources(text, v.group(1)) or []
        else:
            out.append(w)
    return out


def package_string():
    t = open(os.path.join(REPO, "configure.ac")).read()
    m = re.search(r"AC_INIT\(\s*\[?([^],)]*)\]?\s*,\s*\[?([^],)]*)", t)
    return m.group(1).strip(), m.group(2).strip()


def prepare_sources(ctx):
    """Copy the sources of the working tree to scratch, with config.h and the generated parsers."""
    if "src" in ctx.built:
        return ctx.built["src"]
    d = os.path.join(ctx.dir, "src")
    shutil.copytree(os.path.join(REPO, "src"), d,
                    ignore=lambda p, ns: [n for n in ns if n.endswith((".o", ".a", ".lo")) or n in (".deps", ".libs")])
    for n in ("config.h",):
        if os.path.exists(os.path.join(d, n)):
            os.unlink(os.path.join(d, n))
    name, ver = package_string()
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(CONFIG_H)
        f.write('#define PACKAGE_STRING "%s %s"\n#define PACKAGE_VERSION "%s"\n#define VERSION "%s"\n' % (name, ver, ver, ver))
    y, l = os.path.join(d, "config_file_yacc.y"), os.path.join(d, "config_file_lex.l")
    yc, lc = os.path.join(d, "config_file_yacc.c"), os.path.join(d, "config_file_lex.c")
    # the committed parsers are used as they are, unless the grammar was changed
    # (and the committed output was not changed along with it)
    def regen(src, gen, sha, cmd):
        if not os.path.exists(src):
            return
        if os.path.exists(gen) and _sha(src) == sha:
            return
        tracked = subprocess.run(["git", "-C", REPO, "ls-files", "--error-unmatch", "src/" + os.path.basename(gen)],
                                 capture_output=True).returncode == 0
        if tracked and os.path.exists(gen) and _sha(src) == sha:
            return
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cannot generate %s: %s" % (gen, r.stderr))
    regen(y, yc, YACC_SHA, ["bison", "-d", "-o", "config_file_yacc.c", "config_file_yacc.y"])
    regen(l, lc, LEX_SHA, ["flex", "-i", "-o", "config_file_lex.c", "config_file_lex.l"])
    ctx.built["src"] = d
    return d


EXTRA_DEFS = ['-DDATADIR="/dsys/share"', '-DSYSCONFDIR="/dsys/etc"', "-DYY_NO_INPUT", "-DYY_NO_UNPUT"]
FLAVOURS = {
    "plain": ["-O1", "-g"],
    "msan": ["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"],   # with clang
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}
DEFAULT_SRC = {
    "detox": None, "generate_builtin_table": None, "escape_utf_8": None,
}


def prog_sources(d, prog):
    t = open(os.path.join(REPO, "src", "Makefile.am")).read()
    s = _makefile_sources(t, prog + "_SOURCES")
    if not s:
        raise CheckError("no sources for %s" % prog)
    out = []
    for x in s:
        if x.endswith((".y", ".l")):
            x = x[:-2] + ".c"
        if x.endswith(".c") and x not in out:
            out.append(x)
    return out


def compile_all(jobs):
    def one(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        return (cmd, r)
    with ThreadPoolExecutor(CPUS) as ex:
        for cmd, r in ex.map(one, jobs):
            if r.returncode != 0:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))


def build(ctx, prog="detox", flavour="plain", srcs=None, out=None, replace=None):
    """Compile one program of the working tree; returns the path of the binary."""
    key = (prog, flavour, out)
    if key in ctx.built:
        return ctx.built[key]
    d = prepare_sources(ctx)
    srcs = srcs or prog_sources(d, prog)
    o = ctx.sub("obj-%s" % flavour)
    cc = "clang" if flavour == "msan" else "gcc"
    jobs, objs = [], []
    for s in srcs:
        path = (replace or {}).get(s, os.path.join(d, s))
        obj = os.path.join(o, (out or "") + s[:-2] + ".o") if replace and s in replace else os.path.join(o, s[:-2] + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append([cc, "-w", "-DHAVE_CONFIG_H", "-I" + d] + EXTRA_DEFS + FLAVOURS[flavour]
                        + ["-c", path, "-o", obj])
    compile_all(jobs)
    b = ctx.sub("bin-%s" % flavour)
    exe = os.path.join(b, out or prog.replace("_", "-"))
    link = [cc] + FLAVOURS[flavour] + objs + ["-lm", "-o", exe]
    compile_all([link])
    os.chmod(exe, 0o755)
    if prog == "detox" and not out:
        shutil.copy2(exe, os.path.join(b, "inline-detox"))
    ctx.built[key] = exe
    return exe


def build_shim(ctx):
    if "shim" in ctx.built:
        return ctx.built["shim"]
    so = os.path.join(ctx.dir, "shim.so")
    compile_all([["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(VERIF, "shim", "shim.c"), "-o", so, "-ldl"]])
    os.chmod(so, 0o755)
    ctx.built["shim"] = so
    return so


# ---------------------------------------------------------------- running

ASAN_ENV = {"ASAN_OPTIONS": "strict_string_checks=1:detect_leaks=0:verify_asan_link_order=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1",
            "MSAN_OPTIONS": "strict_string_checks=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1"}


def base_env(extra=None):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
    e.update(ASAN_ENV)
    e.update(extra or {})
    return e


class Res:
    __slots__ = ("out", "err", "code", "sig", "timeout")

    def key(self):
        return (self.out, self.err, self.code, self.sig)


HANGS = multiprocessing.Value("i", 0)   # programs that did not end, over all workers


def patience(timeout):
    """After several programs that did not end, wait less for the others: there is a violation by now."""
    n = HANGS.value
    return timeout if n < 8 else min(timeout, 2) if n < 40 else min(timeout, 0.5)


OUTPUT_LIMIT = 48 << 20


def talk(p, stdin, timeout):
    """Popen.communicate, but what does not end, or does not stop writing, is ended."""
    end = time.time() + timeout
    got = {x.fileno(): bytearray() for x in (p.stdout, p.stderr) if x}
    sel = selectors.DefaultSelector()
    for x in (p.stdout, p.stderr):
        if x: sel.register(x, selectors.EVENT_READ)
    data, late = memoryview(stdin or b""), False
    if p.stdin:
        if len(data):
            os.set_blocking(p.stdin.fileno(), False)
            sel.register(p.stdin, selectors.EVENT_WRITE)
        else:
            p.stdin.close()
    while sel.get_map():
        ready = sel.select(max(0.0, end - time.time()))
        if time.time() >= end or sum(map(len, got.values())) > OUTPUT_LIMIT:
            late = True
            p.kill()
            break
        for k, _ in ready:
            if k.fileobj is p.stdin:
                try: data = data[os.write(k.fd, data[:65536]):]
                except BlockingIOError: continue
                except BrokenPipeError: data = data[:0]
                if not len(data): sel.unregister(k.fileobj); k.fileobj.close()
            else:
                x = os.read(k.fd, 65536)
                if x: got[k.fd] += x
                else: sel.unregister(k.fileobj)
    if not late:
        try: p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired: late = True; p.kill()
    p.wait()
    out, err = (bytes(got[x.fileno()]) if x else None for x in (p.stdout, p.stderr))
    for x in (p.stdin, p.stdout, p.stderr):
        if x:
            try: x.close()
            except OSError: pass
    sel.close()
    if late: out, err = (x[:1 << 14] if x is not None else None for x in (out, err))
    return out, err, late


def run(cmd, cwd=None, env=None, stdin=b"", timeout=20, argv0=None, slow=0, outfile=None, infile=None):
    """outfile, infile: names of files to be stdout and stdin; slow: hand standard input over in parts of that many bytes, with pauses"""
    r = Res()
    to = os.open(outfile, os.O_WRONLY | (0 if outfile == "/dev/full" else os.O_CREAT | os.O_TRUNC), 0o600) if outfile else subprocess.PIPE
    if infile: stdin = None
    of = os.open(infile, os.O_RDONLY) if infile else subprocess.PIPE if stdin is not None else subprocess.DEVNULL
    p = subprocess.Popen([argv0 or cmd[0]] + list(cmd[1:]), executable=cmd[0], cwd=cwd, env=env if env is not None else base_env(),
                         stdin=of, stdout=to,
                         stderr=subprocess.PIPE)
    if slow:
        for i in range(0, len(stdin), slow):
            try: os.write(p.stdin.fileno(), stdin[i:i + slow])
            except BrokenPipeError: break
            time.sleep(0.004)
        stdin = b""
    r.out, r.err, r.timeout = talk(p, stdin, patience(timeout))
    if r.timeout:
        with HANGS.get_lock(): HANGS.value += 1
    if infile: os.close(of)
    if outfile:
        os.close(to)
        r.out = b"" if outfile == "/dev/full" else open(outfile, "rb").read()
    r.code = p.returncode if p.returncode >= 0 else 0
    r.sig = -p.returncode if p.returncode < 0 else 0
    if r.timeout:
        r.sig = 98
    elif r.code == 99 and (b"Sanitizer" in r.err or b"runtime error" in r.err):
        r.sig = 97
    return r


def _drop():
    """In a worker: give up root."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    signal.signal(signal.SIGINT, signal.SIG_DFL)


def _pool_init(rootdir):
    me = multiprocessing.current_process()._identity[0]
    d = os.path.join(rootdir, "w%d" % me)
    os.mkdir(d)
    if os.getuid() == 0:
        os.chown(d, NOBODY, NOBODY)
    _drop()
    global WORK
    WORK = d
    os.chdir(d)


WORK = None


def pmap(ctx, fn, items, chunk=8):
    """Map fn over items in unprivileged worker processes, each with its own scratch directory (WORK)."""
    if ctx.violations: raise CheckError("a violation is enough")
    root = tempfile.mkdtemp(prefix="pool.", dir=ctx.dir)
    os.chmod(root, 0o755)
    items = list(items)
    with multiprocessing.get_context("fork").Pool(CPUS, _pool_init, (root,)) as p:
        out = p.map(fn, items, chunksize=max(1, min(chunk, len(items) // (CPUS * 2) or 1)))
    subprocess.run(["chmod", "-R", "u+rwx", root], stderr=subprocess.DEVNULL)
    shutil.rmtree(root, ignore_errors=True)
    return out


# ---------------------------------------------------------------- TLC

def tlc_dir(ctx):
    if "tlcdir" in ctx.built:
        return ctx.built["tlcdir"]
    d = os.path.join(ctx.dir, "spec")
    shutil.copytree(SPEC, d)
    ctx.built["tlcdir"] = d
    return d


def java(heap="3g", gc="-XX:+UseSerialGC", props=()):
    return ["java", gc, "-Xmx" + heap, "-Xss32m", "-XX:TieredStopAtLevel=4"] + list(props) + ["-cp", JAR, "tlc2.TLC"]


def tlc(ctx, module, cfg, env=None, workers=1, heap="3g", timeout=800, args=()):
    d = tlc_dir(ctx)
    meta = tempfile.mkdtemp(prefix="meta.", dir=ctx.dir)
    cmd = java(heap, "-XX:+UseParallelGC" if workers > 2 else "-XX:+UseSerialGC", ["-Djava.io.tmpdir=" + meta]) + \
        ["-metadir", meta, "-workers", str(workers), "-config", cfg, "-noGenerateSpecTE"] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode("utf-8", "replace") + r.stderr.decode("utf-8", "replace")


def brief(out):
    i = out.find("Error:")
    return (out[i:i + int(os.environ.get("BRIEF","3000"))] if i >= 0 else out[:2000]) + "\n...\n" + out[-2000:]


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"(\d+) states generated", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def model_check(ctx, module, cfg, workers=CPUS, heap="12g", env=None, timeout=850, expect=True):
    """Check a model of the design exhaustively; a failure here is an error of the specification."""
    t = time.time()
    rc, out = tlc(ctx, module, cfg, workers=workers, heap=heap, env=env, timeout=timeout)
    g, s = tlc_counts(out)
    ok = rc == 0 and "No error has been found" in out
    if not ok:
        raise CheckError("model %s (%s) fails:\n%s" % (module, cfg, brief(out)))
    ctx.cov["states"] += s
    ctx.cov["transitions"] += g
    ctx.cov["models"].append({"module": module, "config": cfg, "states": s, "transitions": g, "wall_s": round(time.time() - t, 1)})
    log("model %s %s: %d states, %d transitions, %.1fs" % (module, cfg, s, g, time.time() - t))
    return out


def printed(out, tag):
    res = []
    for m in re.finditer(r'^"%s (.*)"$' % tag, out, re.M):
        s = m.group(1)
        s = s.replace('\\"', '"').replace("\\\\", "\\")
        res.append(json.loads(s))
    return res


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")))
            f.write("\n")


def validate(ctx, module, cfg, records, env=None, weight=None, heap="3g", diag=False):
    """Check records (dicts with an 'id') against a trace specification in parallel JVMs.

    The specification prints RESULT {n, accepted}; returns (set of rejected ids, output)."""
    if not records:
        return set(), ""
    w = weight or (lambda r: 1)
    nsh = min(CPUS, max(1, len(records) // 4))
    shards = [[] for _ in range(nsh)]
    load = [0] * nsh
    for r in sorted(records, key=w, reverse=True):
        k = load.index(min(load))
        shards[k].append(r)
        load[k] += w(r)
    td = tempfile.mkdtemp(prefix="tr.", dir=ctx.dir)
    tlc_dir(ctx)

    seq = [0]
    errs = []

    def attempt(recs):
        """-> (accepted ids, output); halves the batch if the evaluation itself fails"""
        seq[0] += 1
        p = os.path.join(td, "t%d.%d.ndjson" % (seq[0], id(recs)))
        write_ndjson(p, recs)
        e = {"TRACE": p, "DIAG": "1" if diag else "0"}
        e.update(env or {})
        rc, out = tlc(ctx, module, cfg, env=e, workers=1, heap=heap, timeout=840)
        res = printed(out, "RESULT")
        if res and res[-1]["n"] == len(recs):
            if "rejected" in res[-1]:
                return {r["id"] for r in recs} - set(res[-1]["rejected"]), out
            return set(res[-1]["accepted"]), out
        if "Error:" not in out or "OutOfMemory" in out or "Parsing or semantic" in out or len(errs) > 12:
            raise CheckError("trace validation with %s failed (rc %d):\n%s" % (module, rc, brief(out)))
        if len(recs) == 1:
            errs.append(brief(out))
            log("record %s cannot be evaluated: %s" % (recs[0]["id"], brief(out)[:600]))
            return set(), out
        h = len(recs) // 2
        a, o1 = attempt(recs[:h])
        b, o2 = attempt(recs[h:])
        return a | b, o1 + o2
    t = time.time()
    with ThreadPoolExecutor(CPUS) as ex:
        rs = list(ex.map(attempt, shards))
    bad, outs = set(), []
    for k, (acc, out) in enumerate(rs):
        bad |= {r["id"] for r in shards[k]} - acc
        g, s = tlc_counts(out)
        ctx.cov["transitions"] += g
        ctx.cov["states"] += s
        outs.append(out)
    shutil.rmtree(td, ignore_errors=True)
    log("%s: %d records, %d rejected, %.1fs" % (module, len(records), len(bad), time.time() - t))
    if not diag:
        ctx.cov["traces_validated_against_impl"] += len(records)
    return bad, "\n".join(outs)
