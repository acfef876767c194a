#!/usr/bin/env python3
"""tools/mutate.py FILE N SEED [LOG]: N random small changes to src/FILE in a scratch copy of /repo; those that build,
change the program and pass the tests are given to the checks until one catches them.  Prints what became of each."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"clean_string.c": "C18 C12 C13 C14 C15 C17 C11 C19", "clean_utf_8.c": "C16 C18 C31 C19 C35", "file.c": "C08 C05 C06 C01 C03 C04 C07 C10 C02 C30 C31 C32 C19 C09",
       "filelist.c": "C06 C32 C33 C19", "table.c": "C21 C23 C20 C19 C26", "parse_table.c": "C20 C23 C21 C34 C19 C26", "filter.c": "C24 C25 C26 C27 C18 C29 C19", "sequence.c": "C24 C25 C26 C28 C27 C29 C19",
       "config_file.c": "C27 C28 C24 C25 C29 C19", "config_file_spoof.c": "C25 C24 C29 C22", "config_file_dump.c": "C29 C27 C19", "config_file_yacc.y": "C27 C28 C29 C25 C19", "config_file_lex.l": "C27 C28 C29 C19",
       "parse_options.c": "C33 C32 C29 C10 C19", "detox.c": "C32 C33 C10 C08 C29 C19 C30", "escape_utf_8.c": "C35 C19", "generate_builtin_table.c": "C34 C19", "check_table.c": "C19 C34", "table_dump.c": "C34 C19", "wrapped.c": "C19 C18 C27"}


def sh(cmd, cwd=None, env=None, t=1500):
    try: p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired: return 124, ""
    return p.returncode, p.stdout.decode("utf-8", "replace")


def muts(l):
    """All changes of one line."""
    out = []
    def sub(rx, f):
        for m in re.finditer(rx, l):
            r = f(m)
            for x in r if isinstance(r, list) else [r]:
                if x is not None: out.append(l[:m.start()] + x + l[m.end():])
    s = l.strip()
    if not s or s.startswith(("//", "*", "/*", "#", "%")): return []
    sub(r"(?<![<>=!\-+])(<=|>=|==|!=|<|>)(?![<>=])", lambda m: {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()] if " " + m.group() + " " in l else None)
    sub(r"&&|\|\|", lambda m: "||" if m.group() == "&&" else "&&")
    sub(r"(?<![\w.\\x'])(0x[0-9a-fA-F]+|\d+)(?![\w'.])", lambda m: [str(int(m.group(), 0) + 1), str(int(m.group(), 0) - 1)] if int(m.group(), 0) else ["1"])
    sub(r"(?<=[\w)\]]) ([-+]) (?=[\w(])", lambda m: " - " if "+" in m.group() else " + ")
    sub(r"\+\+|--(?=;|\)|\s)", lambda m: "--" if m.group() == "++" else "++")
    m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\)\s*\{?\s*)$", l)
    if m: out.append(m.group(1) + "!(" + m.group(2) + ")" + m.group(3)); out.append(m.group(1) + "0 && " + m.group(2) + m.group(3)) if "if" in m.group(1) else None
    if re.match(r"\s*[\w*>.\[\]\-()]+.*;\s*$", l) and not re.match(r"\s*(return|int|char|unsigned|size_t|static|struct|\w+_t)\b", l): out.append(re.match(r"\s*", l).group() + ";")
    sub(r"'([^'\\])'", lambda m: "'%s'" % chr(ord(m.group(1)) ^ 1))
    sub(r"\bNULL\b(?= (&&|\|\|))", lambda m: None)
    return [x for x in out if x != l]


def main():
    name, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    rng = random.Random(name + seed)
    work = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    os.chmod(work, 0o755)
    repo, vp = work + "/repo", work + "/vp"
    try:
        sh("cp -a /repo %s; cp -a /opt/vp %s" % (repo, vp))
        for f in ("build.sh", "test.sh", "sync.py"):
            s = open(vp + "/" + f).read().replace("/opt/vp", vp); s = re.sub(r"/repo\b", repo, s).replace("/tmp/detoxtest", work + "/detoxtest")
            open(vp + "/" + f, "w").write(s)
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
        p = repo + "/src/" + name
        text = open(p, encoding="latin-1").read().split("\n")
        progs = [repo + "/_build/tree/src/" + x for x in ("detox", "generate-builtin-table", "check-table", "escape-utf-8")]
        def sig():
            out = []
            for x in progs:
                sh("objcopy -O binary -j .text -j .rodata -j .data %s %s/sig" % (x, work))
                out.append(open(work + "/sig", "rb").read())
            return out
        sh("bash %s/build.sh" % vp)
        s0 = sig()
        cand = [(i, x) for i, l in enumerate(text) for x in muts(l)]
        rng.shuffle(cand)
        print("%s: %d changes possible" % (name, len(cand)))
        done = 0
        for i, x in cand:
            if done >= n: break
            open(p, "w", encoding="latin-1").write("\n".join(text[:i] + [x] + text[i + 1:]))
            tag = "%s:%d %s => %s" % (name, i + 1, text[i].strip(), x.strip())
            rc, o = sh("bash %s/build.sh" % vp)
            if rc: continue
            if sig() == s0: continue
            rc, o = sh("timeout 120 bash %s/test.sh %s/o.json > /dev/null 2>&1" % (vp, work))
            try: ok = base <= set(json.load(open(work + "/o.json"))["passed"])
            except Exception: ok = False
            if not ok: continue
            done += 1
            res = "SURVIVED"
            t = time.time()
            for c in MAP[name].split():
                rc, o = sh("python3 bin/check.py %s quick" % c, cwd=V, env=dict(os.environ, VERIF_REPO=repo))
                if rc == 1: res = "caught by " + c; break
                if rc != 0: res += " (%s: rc %d)" % (c, rc)
            print("%s [%.0fs] %s" % (res, time.time() - t, tag), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)

main()
