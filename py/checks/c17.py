"""C17: the QR code shown for a password contains exactly this password."""
import cli, common, gen, qr, ref
from cli import P_CODE, P_PRIMARY, P_STORED
from common import Runner, Scratch, finish, Violation

RULE = ("passwords of all lengths (up to the 2953 bytes, 4296 or 7089 characters a QR code can hold) and kinds (digits, capital "
        "letters, any characters, generated ones; from other programs and recovery codes with blanks and control characters around or within them, "
        "or almost of a narrower alphabet) are stored, shown as QR codes on the command line and in shells, and the "
        "pictures are read by an independent decoder of the standard which tolerates no damage at all (patterns, format and "
        "version information, error correction, content). Non-trivial: a QR code was read.")

HEAD = "Password retrieved.\n"


def fits(text):
    b = len(text.encode())
    if text and all(c in "0123456789" for c in text):
        return b <= 7089
    if text and all(c in qr.ALNUM for c in text):
        return b <= 4296
    return b <= 2953


def read(out, what):
    t = out.decode("utf-8")
    if HEAD not in t or not t.endswith("\n"):
        raise Violation("%s: no picture: %r" % (what, t[-400:]))
    pic = t[t.rindex(HEAD) + len(HEAD):-1]
    try:
        return qr.decode(pic)
    except qr.BadCode as e:
        raise Violation("%s: the QR code cannot be read (%s)" % (what, e), picture=pic)


def judge(obs, password, out, err, what):
    if not fits(password):
        if b"rror generating QR code" not in err or any(c in out.decode("utf-8") for c in "\u2580\u2584\u2588"):
            raise Violation("%s: a password too long for a QR code is not reported: %r %r" % (what, out[-300:], err[-300:]))
        obs.count("too long, reported")
        obs.case((password, "long"), False)
        return
    if err.strip():
        raise Violation("%s: %r" % (what, err[-400:]))
    content, version, mode, level = read(out, what)
    if content != password:
        raise Violation("%s: the QR code says %r, the password is %r" % (what, content[:400], password[:400]), content=content, password=password)
    obs.count("version %02d" % version)
    obs.count("level " + level)
    obs.count("mode " + mode)
    obs.case(password, True, {"password": password[:60], "length": len(password), "version": version, "level": level, "mode": mode})


def text(rng, length):
    k = rng.randrange(8)
    if k >= 6:
        t = gen.text(rng, 1, 6)
        while len(t) < length:
            t += gen.text(rng, 1, 12)
        t = gen.trim(t[-length:] if k == 7 else t[:length])
        if t:
            return t
    if k == 0:
        pool = "0123456789"
    elif k == 1:
        pool = qr.ALNUM
    elif k == 2:
        pool = "äß日本😀\u00e9\u0301ж" + "ab1"
    elif k == 3:
        pool = rng.choice(["0", "A", "a", " a", "\u00ff", "{", "09A"])
    else:
        pool = gen.PASSWORD_CHARS.replace("\t", "")
    while True:
        t = "".join(rng.choice(pool) for _ in range(length))
        t = gen.trim(t) or rng.choice("x0A")
        if k in (0, 1) or len(t.encode()) <= max(length, 2):
            return t
        while len(t.encode()) > length:
            t = t[:-1].strip()
        return t or "0"


def session(rng, obs, lengths):
    primary = rng.choice(gen.PRIMARIES)
    with Scratch() as d:
        path = d + "/s"
        cli.init_storage(path, primary, cwd=d)
        with cli.Shell(path, primary, d + "/h", cwd=d) as sh:
            for i, n in enumerate(lengths):
                p = text(rng, n)
                sh.cmd(["add-stored", "-y", "a.com", "x"], [(P_STORED, p)])
                out, err, _ = sh.cmd(["show", rng.choice(["-q", "--qrcode"]), "a.com", "x"])
                judge(obs, p, out, err, "show -q of a password of %d characters (%r...)" % (len(p), p[:40]))
            for i in range(4):
                n = rng.randint(4, 24)
                cl = rng.choice([("lower", "upper", "number", "symbol"), ("number",), ("upper", "number"), ("symbol",), ("lower",)])
                sh.cmd(["add", "-y", "-l", str(n)] + gen.class_flags(rng, cl) + ["g.com", str(i)])
                out, err, _ = sh.cmd(["show", "-q", "g.com", str(i)])
                judge(obs, ref.generate(primary, "g.com", str(i), "", n, cl), out, err, "show -q of a generated password %r" % ((n, cl),))
                obs.count("generated")


def oneshot(rng, obs, n):
    primary = rng.choice(gen.PRIMARIES)
    with Scratch() as d:
        path = d + "/s"
        cli.init_storage(path, primary, cwd=d)
        U = [(P_PRIMARY, primary)]
        p = text(rng, n)
        cli.run(path, ["add-stored", "-r", "7", "a.com", "x"], U + [(P_STORED, p)], cwd=d)
        cli.run(path, ["alias", "b.com", "a.com"], U, cwd=d)
        r = cli.run(path, ["show", rng.choice(["a.com", "www.a.com", "b.com"]), "x", "-qr7"], U, cwd=d)
        if (r.rc == 0) != fits(p) or r.panicked():
            raise Violation("show -q of a password of %d characters: %r" % (len(p), r))
        judge(obs, p, r.out, r.err, "show -q of %r..." % p[:40])


BLANKS = [" ", "  ", "\t", "\u00a0", "\u3000", "\u200b", "\ufeff", "\u2028", "\x0b", "\x1f", "\r", "\n", "\x00", "\x7f", "\u0301", "\u202e"]


def peculiar(rng):
    """Passwords which something might "correct" on the way: as other programs and recovery codes bring them in too."""
    k = rng.randrange(7)
    core = text(rng, rng.randint(1, 14))
    if k == 0:
        return rng.choice(BLANKS) + core + rng.choice(BLANKS + ["", ""])
    if k == 1:
        return core + rng.choice(BLANKS) * rng.randint(1, 3)
    if k == 2:
        i = rng.randint(0, len(core))
        return core[:i] + rng.choice(BLANKS) + core[i:]
    if k == 3:                      # almost of a narrower alphabet
        t = [rng.choice(qr.ALNUM if rng.random() < .5 else qr.ALNUM[:36]) for _ in range(rng.randint(1, 20))]
        for _ in range(rng.randint(1, 3)):
            t[rng.randrange(len(t))] = rng.choice("abcdefghijklmnopqrstuvwxyz;,_#@!\"'()&=~\u0130\u0131\uff11\u0661\u00c4")
        return "".join(t)
    if k == 4:                      # almost a number
        t = [rng.choice("0123456789") for _ in range(rng.randint(1, 20))]
        if rng.random() < .7:
            t[rng.randrange(len(t))] = rng.choice("OolIBSZ.,- +eE\u0661\uff11\u00b2")
        return "0" * rng.randint(0, 3) + "".join(t)
    if k == 5:                      # means something to what reads such codes
        return rng.choice(["http://a.com/", "HTTP://A.COM/?X", "WIFI:S:x;P:%s;;", "otpauth://totp/x?secret=%s", "mailto:%s", "tel:%s", "\\%s\\n", "%%s%s", "%%20%s",
                           "&amp;%s", "<b>%s</b>", "\x1b[0m%s", "MECARD:N:%s;;", "]Q1%s", "\u0065\u0301%s", "\u00e9%s", "\ufb01%s", "\u2126%s"]).replace("%s", core)
    return rng.choice(["a", "A", "1", "aaaaaaaa", "A" * 20, "1" * 20, "a b", "A B", "1 2", ":", "$", "%", "*A*", "/", "\u00df", "SS", "\u017f", "\u212a", "K"]) + rng.choice(["", core])


def kept(rng, obs, n):
    """Passwords written by other programs or restored from recovery codes."""
    primary = rng.choice(gen.PRIMARIES)
    with Scratch() as d:
        path = d + "/s"
        texts = [peculiar(rng) for _ in range(n)]
        entries = [{"type": "stored", "site": "a.com", "name": str(i), "revision": "", "password": t} for i, t in enumerate(texts)]
        content, _, key, salt = ref.build_storage(primary, {"a.com": None}, entries, style=rng)
        open(path, "w").write(content)
        restored = peculiar(rng)
        code = ref.make_code(restored, salt, key).split("\n")
        with cli.Shell(path, primary, d + "/h", cwd=d) as sh:
            for i, t in enumerate(texts):
                out, err, _ = sh.cmd(["show", "-q", "a.com", str(i)])
                judge(obs, t, out, err, "show -q of %r" % t)
                obs.count("peculiar")
            if "\0" not in restored:
                sh.cmd(["add-stored", "-y", "-c", "a.com", "new"], [(P_CODE, c) for c in code])
                out, err, _ = sh.cmd(["show", "-q", "a.com", "new"])
                judge(obs, restored, out, err, "show -q of %r from a recovery code" % restored)
                obs.count("from a code")


def main():
    common.build_cli()
    r = Runner("C17", 900 if common.THOROUGH else 100)
    rng = __import__("random").Random("%s:C17" % common.SEED)
    m = 20 if common.THOROUGH else 1
    limits = [1, 2, 3, 9, 10, 11, 17, 25, 41, 134, 230, 231, 1367, 1370, 2331, 2330, 2952, 2953, 2954, 4295, 4296, 4297, 7088, 7089, 7090]
    jobs = []
    for _ in range(m):
        todo = [rng.randint(1, 40) for _ in range(160)] + [rng.randint(1, 400) for _ in range(60)] + \
            [rng.randint(1, 3000) for _ in range(36)] + [rng.randint(1, 7100) for _ in range(8)] + limits
        rng.shuffle(todo)
        jobs += [(todo[i::24],) for i in range(24)]
    r.run(session, jobs, "shells")
    r.run(oneshot, [(n,) for n in [1, 12, 30, 100, 500, 2953, 2954, 7200] * m], "processes")
    r.run(kept, [(30,)] * (8 * m), "other programs' passwords")
    return finish(r, "exploration", RULE,
                  ["the decoder is ours; it was checked to reject codes with any single module changed (remainder bits aside)",
                   "terminals draw the block elements as Unicode describes them, dark on light"], 150)
