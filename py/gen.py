"""Inputs: few keys (so that operations collide), many shapes."""
import ref

PRIMARIES = ["foobar", "correct horse battery", "pässwörd-ключ", "a b  c d", "\"quoted\\pw\"", "123456", "日本語パス",
             "x" * 100, "emoji😀pw", "äöü", "日本", "😀é"]

SITES = ["example.com", "www.example.com", "example.org", "sub.example.com", "Example.com", "localhost",
         "192.168.0.1:8080", "münchen.de", "例え.jp", "my site", "it's", "quo\"te", "back\\slash", "www.", "www.www.twice.net",
         "wwwx.com", "www", "ww.example.com", "example.com.", "https://example.com/login?a=b", "com", "a", "",
         "100%", "semi;colon", "tab\there", "site:x", "dollar$HOME", "very-" + "long-" * 60 + "name", "pfp",
         "www.example.org", "www.sub.example.com", "example.comm", "xample.com", "emoji😀.example", " example.com", "example.com ", "example.com\t"]
NAMES = ["me", "admin", "user@example.com", "Jane Q. Public", "", "ünïcödé", "it's me", "\"q\"", "a\\b", "1", "me2",
         "ME", "m", "名前", "long" * 50, "$(id)", "me.", "www.me", " me", "me ", "me  ", "\tme", "me\u00a0"]
REVS = ["1", "1", "1", "", "2", "3", "02", "10", "11", "01", "latest", "2022-01-01", "ré", "1 ", "a b", "0", "1.0", "+1", "-1", "001", "1e0", "I", "one", "first", "default", "*"]
PASSWORD_CHARS = "abcXYZ0189 !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~äßλжあ😀\t"


def site(rng, pool=None):
    return rng.choice(pool or SITES)


def subset(rng, pool, n):
    return rng.sample(pool, min(n, len(pool)))


def related(s):
    """Spellings close to a site name, which are other sites or the same one."""
    return ["www." + s, s + ".", s.upper(), s + "x", "x" + s, "www" + s, "www.www." + s, s[:-1], s.replace(".", "-")]


ATOMS = list("abcxyzABCXYZ0123456789") * 2 + list(" .-_@/:,;'\"\\$&|<>()[]{}*?!#%~`^=+") + \
    ["www.", ".com", "..", "--", "  ", "\t", "\u00a0", "\u2003", "\u200b", "\u2028", "\ufeff", "\u0301", "\u00ad", "\u202e", "\u3000",
     "\x01", "\x1f", "\x7f", "\x85", "\u00e4", "a\u0308", "\u00df", "\u1e9e", "\u0130", "\u0131", "\u03c3", "\u03c2", "\ufb01", "\u212a", "\u00c5",
     "\u212b", "\u65e5", "\u5bc6", "\U0001f600", "\U0001f1e9\U0001f1ea", "\U0001f468\u200d\U0001f469", "0", "00", "1", "e9", "null", "true",
     "\\n", "\\u0000", "%00", "&amp;", "${x}", "\uffff", "\U0010ffff", "\ue000", "\ufffd"]


def text(rng, lo=0, hi=12, bad="\n\r\0"):
    """Any text, made of what tends to be treated specially. Code points Rust takes for line ends are left out."""
    k = rng.random()
    if k < .12:
        return rng.choice(ATOMS) * rng.choice([1, 1, 2, 3, 5, 8])
    n = rng.randint(lo, hi) if k < .9 else rng.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000])
    t = "".join(rng.choice(ATOMS) for _ in range(n))
    return "".join(c for c in t if c not in bad)


def variant(rng, s):
    """A text close to s but (mostly) different from it."""
    import unicodedata
    i = rng.randint(0, len(s))
    f = [lambda: s.upper(), lambda: s.lower(), lambda: s.swapcase(), lambda: s.title(), lambda: s + " ", lambda: " " + s,
         lambda: s + "\t", lambda: s + "\u00a0", lambda: "\u3000" + s, lambda: s + ".", lambda: "." + s, lambda: s + "/", lambda: s[:-1], lambda: s[1:],
         lambda: s[:i] + s[i + 1:], lambda: s[:i] + " " + s[i:], lambda: s[:i] + s[i:i + 1] + s[i:], lambda: s[:i] + "\u200b" + s[i:],
         lambda: s[:i] + rng.choice(ATOMS) + s[i:], lambda: s + "0", lambda: "0" + s, lambda: "www." + s, lambda: "www." * 2 + s,
         lambda: "WWW." + s, lambda: "sub." + s, lambda: s + s, lambda: s[::-1], lambda: unicodedata.normalize("NFD", s),
         lambda: unicodedata.normalize("NFC", s), lambda: unicodedata.normalize("NFKC", s), lambda: s.casefold(), lambda: s.strip(), lambda: s + "\ufeff",
         lambda: "\ufeff" + s, lambda: s.replace(".", ","), lambda: s + "*", lambda: s + "?", lambda: s + "\x01", lambda: "https://" + s, lambda: s + ":443",
         lambda: s + "1", lambda: "-" + s, lambda: s[:255], lambda: s + "x" * (300 - len(s)), lambda: "'" + s + "'", lambda: s.replace("o", "0")]
    t = rng.choice(f)()
    return "".join(c for c in t if c not in "\n\r\0")


def near(rng, key):
    """A key which differs from the given one (site, name, revision) in one part, as little as possible."""
    s, n, r = key
    k = rng.random()
    if k < .25:
        s = variant(rng, s)
    elif k < .5:
        n = variant(rng, n)
    else:
        r = rng.choice(["0", "2", "1.0", "01", "-1", "00", "+1", "r1", "latest"]) if rng.random() < .5 else variant(rng, r or "1")
    return s, n, r


WHITE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def trim(s):
    """Without white space at both ends, as Unicode defines it (unlike Python, which adds some control characters)."""
    return s.strip(WHITE)


def pool(rng, fixed, n, short=6):
    """n different texts: well-known ones, made up ones, and close relatives of those."""
    out = []
    while len(out) < n:
        k = rng.random()
        t = variant(rng, rng.choice(out)) if out and k < .45 else rng.choice(fixed) if k < .8 else text(rng, 0, short)
        if t not in out:
            out.append(t)
    return out


def secret(rng, lo=1, hi=40, chars=PASSWORD_CHARS):
    while True:
        n = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
        if chars is PASSWORD_CHARS and rng.random() < .3:
            s = trim(text(rng, lo, hi // 2))
            if s:
                return s
            continue
        s = "".join(rng.choice(chars) for _ in range(n))
        if s.strip() == s and s and "\n" not in s:
            return s


def token(rng, n=12):
    """A unique, recognisable text."""
    return "".join(rng.choice("abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789") for _ in range(n))


def notes(rng):
    k = rng.randrange(16)
    if k >= 14:
        return text(rng, 0, 20)
    if k == 13:
        return rng.choice([" ", "   ", "\t", "\u00a0", "\r", " \r", "x\r", "\ufeff", "\u200b", "0", "''", '""', "null", "-", "{}", "\x01", "x ", " x", "\\"])
    if k == 12:
        return variant(rng, "some notes")
    k %= 10
    if k == 0:
        return ""
    if k == 1:
        return "  spaces around\t "
    if k == 2:
        return "n" * rng.choice([1, 100, 1023, 1024, 1025, 3000])
    if k == 3:
        return "quotes \" ' back\\slash / {\"json\": [1]}"
    if k == 4:
        return "ümläut 日本 😀 \u2028 \x7f"
    return secret(rng, 1, 80)


def classes(rng):
    names = [n for n, _ in ref.CLASSES]
    while True:
        c = [n for n in names if rng.random() < .7]
        if c:
            return tuple(c)


def class_flags(rng, cl):
    short = {"lower": "-w", "upper": "-u", "number": "-d", "symbol": "-s"}
    long = {"lower": "--no-lower", "upper": "--no-upper", "number": "--no-digit", "symbol": "--no-symbol"}
    off = [n for n, _ in ref.CLASSES if n not in cl]
    rng.shuffle(off)
    if off and rng.random() < .3:
        return ["-" + "".join(short[n][1] for n in off)]
    return [rng.choice([short, long])[n] for n in off]


def rev_flags(rng, rev):
    if rev == "1" and rng.random() < .5:
        return []
    if rev.startswith("-"):
        return ["--revision=" + rev]
    return [rng.choice(["-r", "--revision"]), rev]


def words(cmd, flags, positionals):
    if any(p.startswith("-") for p in positionals):
        return [cmd] + flags + ["--"] + list(positionals)
    return [cmd] + flags + list(positionals)
