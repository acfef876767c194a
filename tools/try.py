#!/usr/bin/env python3
"""tools/try.py SEED [CHECK...]: try a planted change in a scratch copy of /repo.

SEED is a directory under /verif/seeded (or a path to one).  Confirms that the change applies, builds,
passes the tests and is shown by its demonstration, then runs the given checks (default: the one of
meta.json's property; '-' for none) against the copy."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd=None, env=None, t=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def main():
    seed = sys.argv[1] if os.path.isdir(sys.argv[1]) else os.path.join(V, "seeded", sys.argv[1])
    seed = os.path.abspath(seed)
    meta = json.load(open(os.path.join(seed, "meta.json")))
    checks = sys.argv[2:] or [meta["property"]]
    work = tempfile.mkdtemp(prefix="try.", dir="/tmp")
    os.chmod(work, 0o755)
    repo = work + "/repo"
    try:
        sh("cp -a /repo %s" % repo)
        vp = work + "/vp"; sh("cp -a /opt/vp %s" % vp)
        for f in ("build.sh", "test.sh", "sync.py"):
            s = open(vp + "/" + f).read().replace("/opt/vp", vp); s = re.sub(r"/repo\b", repo, s).replace("/tmp/detoxtest", work + "/detoxtest")
            open(vp + "/" + f, "w").write(s)
        demo = work + "/demo"; shutil.copytree(seed, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(demo + "/" + f)
        rc, o = sh("bash %s/build.sh" % vp)
        if rc: print("clean build failed", o[-500:]); return 1
        rc, o = sh("bash %s/demo.sh" % demo, cwd=repo, t=300)
        print("demo clean: %d" % rc, "" if rc == 0 else o[-800:])
        ok = rc == 0
        rc, o = sh("git apply %s/patch.diff" % seed, cwd=repo)
        if rc: print("patch:", o); return 1
        rc, o = sh("bash %s/test.sh %s/o.json" % (vp, work))
        r = json.load(open(work + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        bad = [t for t in (stable if isinstance(stable, list) else stable.keys()) if t not in set(r.get("passed", []))]
        print("tests: %d passed, not passing: %s" % (len(r.get("passed", [])), bad[:5]))
        ok = ok and not bad
        rc, o = sh("bash %s/demo.sh" % demo, cwd=repo, t=300)
        print("demo patched: %d %s" % (rc, o.strip()[-300:]))
        ok = ok and rc != 0
        print("COUNTS" if ok else "DOES NOT COUNT")
        for c in checks:
            if c == "-": continue
            t = time.time()
            rc, o = sh("python3 bin/check.py %s %s" % (c, os.environ.get("TIER", "quick")), cwd=V, env=dict(os.environ, VERIF_REPO=repo))
            lines = [l for l in o.splitlines() if not l.startswith("[")]
            print("%s %s: rc=%d %.0fs %s" % (os.path.basename(seed), c, rc, time.time() - t, " | ".join(lines)[:700]))
    finally:
        shutil.rmtree(work, ignore_errors=True)

main()
