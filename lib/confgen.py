"""Configuration texts, well-formed and otherwise."""
import re

NAMES = [b"default", b"a", b"b", b"c", b"Default", b"utf_8-x", b"x y", b"lower", b"safe", b"z9_", b"", b"\xc3\xa4", b"sequence", b"a", b"b", b"DEFAULT", b"default "]
TABLES = [b"safe", b"unicode", b"iso8859_1", b"cp1252", b"nope", b"x.tbl", b"@TOP@/t.tbl", b"SAFE", b""]
KEYWORDS = [b"builtin", b"filename", b"ignore", b"iso8859_1", b"length", b"lower", b"max_length", b"remove_trailing", b"safe", b"sequence", b"uncgi", b"utf_8", b"wipeup"]
PLAIN = re.compile(rb"[a-zA-Z][a-zA-Z0-9_]*\Z")


def quotable(s, rng):
    if PLAIN.match(s) and s.lower() not in KEYWORDS and rng.random() < 0.6: return s
    return b'"' + s + b'"'


def tokens_filter(rng, safe_only=False):
    k = rng.choice([b"uncgi", b"lower", b"wipeup", b"max_length", b"safe", b"iso8859_1", b"utf_8", b"safe", b"wipeup"])
    out = [k]
    if k == b"wipeup":
        x = rng.random()
        if x < 0.2: out += [b"{", b"}"]
        elif x < 0.7: out += [b"{", b"remove_trailing", b";", b"}"]
    elif k == b"max_length":
        x = rng.random()
        if x < 0.2: out += [b"{", b"}"]
        elif x < 0.7: out += [b"{", b"length", b"%d" % rng.choice([1, 5, 12, 0, 255, 256, 1000, 7]), b";", b"}"]
    elif k in (b"safe", b"iso8859_1", b"utf_8"):
        x = rng.random()
        if x < 0.1: out += [b"{", b"}"]
        elif x < 0.5: out += [b"{", b"builtin", quotable(rng.choice(TABLES[:4] if safe_only else TABLES), rng), b";", b"}"]
        elif x < 0.8 and not safe_only: out += [b"{", b"filename", quotable(rng.choice(TABLES), rng), b";", b"}"]
    return out + [b";"]


def tokens_seq(rng, name=None, safe_only=False):
    out = [b"sequence", quotable(rng.choice(NAMES) if name is None else name, rng), b"{"]
    for _ in range(rng.choice([1, 1, 2, 3, 5])): out += tokens_filter(rng, safe_only)
    return out + [b"}", b";"]


def tokens_ign(rng):
    out = [b"ignore", b"{"]
    for _ in range(rng.randint(1, 3)): out += [b"filename", quotable(rng.choice([b"CVS", b"{arch}", b"x y", b"a", b"A", b"#", b";"]), rng), b";"]
    return out + [b"}", b";"]


def tokens(rng, n=None, safe_only=False):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if n is None else n):
        out += tokens_ign(rng) if rng.random() < 0.25 else tokens_seq(rng, safe_only=safe_only)
    return out


WORD = re.compile(rb"[a-zA-Z0-9_]")


def spell(rng, ts, level=1):
    """Write tokens with white space, comments and keyword case chosen at random."""
    out = b""
    for t in ts:
        if t.lower() in KEYWORDS and rng.random() < 0.3: t = rng.choice([t.upper(), t.capitalize(), bytes(c ^ (32 if chr(c).isalpha() and rng.random() < 0.5 else 0) for c in t)])
        gap = rng.choice([b"", b"", b" ", b"\n", b"\t", b"  \n\t", b" # note; { \"\n", b"\n#\n", b"\r\n", b" = ", b","][:11 if level > 1 else 9])
        if out and t and WORD.match(out[-1:]) and WORD.match(t[:1]) and not gap: gap = b" "
        out += gap + t
    return out + rng.choice([b"", b"\n", b"\n\n", b" # end", b"\t"])


JUNK = [b"{", b"}", b";", b"sequence", b"ignore", b"filename", b"builtin", b"length", b"lower", b"safe", b"wipeup", b"remove_trailing", b"max_length", b"abc", b'"q r"', b"12", b"uncgi", b"utf_8"]


def broken(rng, ts):
    ts = list(ts)
    if not ts: return [rng.choice(JUNK)]
    for _ in range(rng.choice([1, 1, 1, 2])):
        x, i = rng.random(), rng.randrange(len(ts)) if ts else 0
        if not ts: break
        if x < 0.3: del ts[i]
        elif x < 0.55: ts.insert(i, rng.choice(JUNK))
        elif x < 0.8: ts[i] = rng.choice(JUNK)
        elif x < 0.9: ts = ts[:i]
        else:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
    return ts


def mangle(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not t: break
        i, x = rng.randrange(len(t)), rng.random()
        if x < 0.4: t[i] = rng.choice(b"\"{};#\n _-a9\t\\'=\xe4\xff.\r\x01")
        elif x < 0.7: del t[i]
        else: t.insert(i, rng.choice(b"\"{};#\n _-a9\t\\'=\xe4\xff.\r\x01"))
    return bytes(t)


BIGNUM = re.compile(rb"[0-9]{9,}")


def sane(t):
    """numbers below 2^31, no NUL"""
    return not BIGNUM.search(t) and b"\0" not in t
