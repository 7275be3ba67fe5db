"""C11: recovery codes bring stored passwords back, on any storage with the same primary password, across program versions."""
import json, os
import api, cli, codes, common, gen, ref
from cli import P_CODE, P_NEW, P_PRIMARY, P_REPEAT
from common import Runner, Scratch, finish, Violation
from model import compare_listing

RULE = ("stored passwords of all lengths (every residue modulo the 14 byte block, up to more than 256 code lines, Unicode) are "
        "printed as recovery codes by list -r; each code is decoded by an independent implementation and typed into the "
        "program again (line by line, in one line, in other lines, lower case, with and without punctuation and noise) in the "
        "same storage, in a new one with the same primary password and after a reset; codes made by the independent "
        "implementation and by an older build are typed as well. The library's generator is run on every length by itself. The restored password must be the original one; the code "
        "must only show the length in 14 byte steps, and must be useless with another primary password. Non-trivial: a code "
        "which made it through one such round trip.")

CHARS = gen.PASSWORD_CHARS


def password(rng, n):
    """n bytes of UTF-8, trimmed, not ending in NUL."""
    while True:
        out = ""
        k = rng.randrange(4)
        if k == 3:
            out = "".join(gen.text(rng, 1, 8) for _ in range(n // 4 + 1))[-n:]
            while len(out.encode()) > n:
                out = out[1:]
            out = "x" * (n - len(out.encode())) + out
            if gen.trim(out) == out and "\n" not in out and "\0" not in out:
                return out
            continue
        pool = ["abc123", CHARS, "ä日😀 xß\u0301"][k]
        while len(out.encode()) < n:
            out += rng.choice(pool)
        while len(out.encode()) > n:
            out = out[:-1]
        out += "x" * (n - len(out.encode()))
        if gen.trim(out) == out and "\n" not in out and out:
            return out


def enter(sh, words, lines, primary, answers=()):
    dlg, want_err, outcome = codes.simulate(lines, answers, primary)
    return sh.cmd(words, dlg), want_err, outcome, dlg


def lines_needed(n):
    return (45 + n + 13) // 14


def listed_codes(sh, m, obs):
    got = {}
    out, err, _ = sh.cmd(["list", "-r"])
    if out.startswith(P_PRIMARY):
        out = out[len(P_PRIMARY):]
    if err:
        raise Violation("list -r fails: %r" % err)

    def on_code(ident, text):
        pw = m[ident]
        try:
            v = ref.read_code(text, sh.primary)
        except ref.CodeError as e:
            return "the recovery code of %r is not valid (%s): %r" % (ident, e, text)
        except UnicodeDecodeError:
            return "the recovery code of %r does not hold a text: %r" % (ident, text)
        if v != pw:
            return "the recovery code of %r holds %r instead of %r" % (ident, v, pw)
        if text.count("\n") + 1 != lines_needed(len(pw.encode())):
            return "the recovery code of a %d byte password has %d lines" % (len(pw.encode()), text.count("\n") + 1)
        got[ident] = text
        return None

    want = []
    for s in sorted({k[0] for k in m}, key=str.encode):
        want.append("Passwords for %s:" % s)
        for k in sorted((k for k in m if k[0] == s), key=lambda k: (k[1] + " " + k[2]).encode()):
            want += ["    %s (stored)" % k[1] if not k[2] else "    %s (stored, revision: %s)" % (k[1], k[2]),
                     "        Recovery code:", ("CODE", k)]
    d = compare_listing(want, out, on_code)
    if d:
        raise Violation("list -r: " + d, printed=repr(out[:4000]))
    obs.count("codes_printed", len(got))
    return got


def restore(rng, sh, code, pw, obs, what, n):
    lines = codes.retype(rng, code)
    words = ["add-stored", rng.choice(["-c", "--recovery"]), "back%d.com" % n, "x"]
    (out, err, unmet), want_err, outcome, dlg = enter(sh, words, lines, sh.primary)
    if outcome != ("value", pw):
        raise AssertionError((outcome, lines))
    if out.startswith(P_PRIMARY):
        out = out[len(P_PRIMARY):]
    if unmet is not None or not out.endswith(b"Password added.\n") or err.decode("utf-8", "replace") != want_err:
        raise Violation("%s: the recovery code is not accepted: %r %r" % (what, out[-300:], err[-300:]), code=code, lines=lines,
                        password=pw)
    out, err, _ = sh.cmd(["show", "back%d.com" % n, "x"])
    if err or not out.endswith(b"\n" + pw.encode() + b"\n"):
        raise Violation("%s: the recovery code brings back %r instead of %r %r" % (what, out[-300:], pw, err), code=code, lines=lines)
    obs.case((pw, code), True, {"password_bytes": len(pw.encode()), "code_lines": code.count("\n") + 1, "typed_lines": len(lines),
                                "where": what})
    obs.count(what)


def trip(rng, obs, lengths):
    primary = rng.choice(gen.PRIMARIES)
    with Scratch() as d:
        for f in ("a", "b", "c"):
            cli.init_storage(d + "/" + f, primary, cwd=d)
        m = {}
        with cli.Shell(d + "/a", primary, d + "/h", cwd=d) as sh:
            for i, n in enumerate(lengths):
                k = ("s%d.com" % (i % 3), "n%d" % i, rng.choice(["", "2", "x"]))
                m[k] = password(rng, n)
                out, err, unmet = sh.cmd(["add-stored", k[0], k[1]] + (["-r", k[2]] if k[2] else []), [(cli.P_STORED, m[k])])
                if err or unmet:
                    raise Violation("add-stored fails: %r" % err)
            first = listed_codes(sh, m, obs)
            second = listed_codes(sh, m, obs)
            for k in m:
                if first[k] == second[k]:
                    raise Violation("the same recovery code is printed twice", code=first[k])
            i = 0
            for k in sorted(m):
                if rng.random() < .4:
                    restore(rng, sh, rng.choice([first, second])[k], m[k], obs, "same storage", i)
                    i += 1
        with cli.Shell(d + "/b", primary, d + "/h", cwd=d) as sh:
            for k in sorted(m):
                i += 1
                restore(rng, sh, first[k], m[k], obs, "another storage", i)
            salt = os.urandom(16)
            key = ref.storage_key(primary, salt)
            for n in lengths[:3]:
                i += 1
                pw = password(rng, n)
                restore(rng, sh, ref.make_code(pw, salt, key, pad_extra=rng.choice([0, 0, 1, 3])), pw, obs, "independently made", i)
        r = cli.run(d + "/a", ["set-primary", "-y"], [(P_NEW, primary), (P_REPEAT, primary)], cwd=d)
        if r.rc != 0:
            raise Violation("set-primary fails: %r" % r)
        with cli.Shell(d + "/a", primary, d + "/h", cwd=d) as sh:
            for k in rng.sample(sorted(m), min(2, len(m))):
                i += 1
                restore(rng, sh, first[k], m[k], obs, "after a reset", i)
        # another primary password, not even with the storage's own salt
        other = primary + rng.choice(["x", " x", "1"])
        doc = json.load(open(d + "/b"))
        text = ref.build_storage(other, {}, [], salt=ref.unb64(doc["data"]["salt"]))[0]
        open(d + "/o", "w").write(text)
        with cli.Shell(d + "/o", other, d + "/h", cwd=d) as sh:
            sh.cmd(["list"])
            for k in rng.sample(sorted(m), min(2, len(m))):
                before = open(d + "/o", "rb").read()
                lines = codes.retype(rng, first[k])
                (out, err, unmet), want_err, outcome, _ = enter(sh, ["add-stored", "-c", "x.com", "x"], lines, other)
                if outcome != ("error", "decrypt"):
                    raise AssertionError(outcome)
                if unmet or b"Password added" in out or b"Decryption failure" not in err:
                    raise Violation("a recovery code typed under another primary password: %r %r" % (out, err), code=first[k])
                if open(d + "/o", "rb").read() != before:
                    raise Violation("a recovery code typed under another primary password changes the storage", code=first[k])
                obs.count("rejected under another primary password")


EDGES = ["a ", " a", "a\t", "a\n", "\na", "a\r\n", " ", "\n", "\t ", "a\u00a0", "\ufeffa", "a\u3000", "a\u200b", "a\nb", "\x01", "a\x7f", "\x1b[0m", "\0a", "a\0b", "", "-", "A:", "\u0301"]


def peculiar(rng, obs, n):
    """Passwords other implementations stored, as nobody could type them here."""
    primary = rng.choice(gen.PRIMARIES)
    with Scratch() as d:
        m, es = {}, []
        for i, x in enumerate(rng.sample(EDGES, n)):
            pw = x if rng.random() < .3 else rng.choice([x + "mid" + x, "b" * rng.randrange(40) + x, x + "c" * rng.randrange(40)])
            pw = pw.rstrip("\0")
            k = ("s%d.com" % (i % 3), "n%d" % i, "")
            m[k] = pw
            es.append(dict(type="stored", site=k[0], name=k[1], revision="", password=pw))
        open(d + "/a", "w").write(ref.build_storage(primary, {k[0]: None for k in m}, es)[0])
        cli.init_storage(d + "/b", primary, cwd=d)
        with cli.Shell(d + "/a", primary, d + "/h", cwd=d) as sh:
            got = listed_codes(sh, m, obs)
        with cli.Shell(d + "/b", primary, d + "/h", cwd=d) as sh:
            for i, k in enumerate(sorted(m)):
                restore(rng, sh, got[k], m[k], obs, "passwords nobody types", i)
        held = ref.read_storage(open(d + "/b").read(), primary).passwords
        for i, k in enumerate(sorted(m)):
            if held["back%d.com" % i, "x", ""]["password"] != m[k]:
                raise Violation("the code of %r is stored as %r" % (m[k], held["back%d.com" % i, "x", ""]["password"]), code=got[k])


def golden(rng, obs, i):
    g = json.load(open(os.path.join(common.VERIF, "golden", "storages.json")))[i]
    with Scratch() as d:
        cli.init_storage(d + "/s", g["primary"], cwd=d)
        with cli.Shell(d + "/s", g["primary"], d + "/h", cwd=d) as sh:
            n = 0
            for e in g["entries"]:
                if e.get("code"):
                    n += 1
                    restore(rng, sh, e["code"], e["value"], obs, "printed by an older build", n)


def produced(rng, obs, lengths):
    """Codes made by the library, without deriving keys: every length, and the formatting of anything."""
    with Scratch() as d, api.Lib(d) as lib:
        ps = [password(rng, n) if n else "" for n in lengths]
        nonces = set()
        args = [(x, os.urandom(16), os.urandom(32)) for x in ps]
        for (x, salt, key), r in zip(args, lib.batch([("code", "generate", api.h(x), salt.hex(), key.hex()) for x, salt, key in args])):
            if not r.ok:
                raise Violation("generating the recovery code of %r (%d bytes): %r" % (x, len(x.encode()), r))
            code = api.unh(r.value)
            try:
                b = ref.parse_code(code)
            except ref.CodeError as e:
                raise Violation("the recovery code of %r (%d bytes) is wrong: %s\n%s" % (x, len(x.encode()), e, code))
            p = ref.gcm_decrypt(key, b[17:29], b[29:])
            if b[0] != 1 or b[1:17] != salt or p is None or p.rstrip(b"\0") != x.encode():
                raise Violation("the recovery code of %r (%d bytes) holds %r" % (x, len(x.encode()), p), code=code)
            if len(p) - len(x.encode()) >= 14 or code != ref.rows_to_code(b):
                raise Violation("the recovery code of %r (%d bytes) is %r" % (x, len(x.encode()), code))
            if b[17:29] in nonces:
                raise Violation("a nonce is used twice")
            nonces.add(b[17:29])
            obs.case((len(x.encode()),), True)
            obs.count("codes made by the library")
        texts = [b"".join(rng.choice([code[i:i + 5].encode(), bytes([rng.randrange(256)]), b"abcd", b"-", b"\n", "\u00e4\u212a\u017f".encode()])
                          for i in range(rng.randrange(60))) for _ in range(300)]
        for t, (r, r2) in zip(texts, zip(*[lib.batch([("code", "format", api.h(t), f) for t in texts]) for f in "01"])):
            want = "".join(chr(c) for c in t.upper() if chr(c) in ref.ALPHABET)
            lines = [want[i:i + 24] for i in range(0, len(want), 24)]
            punct = "\n".join(":".join("-".join(h[j:j + 4] for j in range(0, len(h), 4)) for h in (x[:12], x[12:]) if h) for x in lines)
            if api.unh(r.value) != want or api.unh(r2.value) != punct:
                raise Violation("%r is formatted as %r and %r instead of %r" % (t, api.unh(r.value), api.unh(r2.value), punct))
            obs.count("texts formatted")


def main():
    common.build_harness()
    common.build_cli()
    r = Runner("C11", 900 if common.THOROUGH else 100)
    g = json.load(open(os.path.join(common.VERIF, "golden", "storages.json")))
    r.run(peculiar, [(7,)] * (8 * (20 if common.THOROUGH else 1)), "peculiar passwords")
    r.run(golden, [(i,) for i in range(len(g))], "older build")
    if common.THOROUGH:
        ls = [[a, a + 40, a + 80, a + 120, a + 700] for a in range(1, 41)] * 6 + [[3538 + a, 4000 + 14 * a] for a in range(0, 30)] + \
             [[7100 + a] for a in range(0, 8)]
    else:
        ls = [[a, a + 10, a + 20, a + 30, a * 7] for a in range(1, 11)] + [[3520], [3540, 3541], [4000], [1000, 999]]
    r.run(trip, [(x,) for x in ls], "round trips")
    top = 2400 if common.THOROUGH else 600
    r.run(produced, [([x for x in range(a, top, 16)] + [3500 + a, 7000 + a],) for a in range(16)] * (10 if common.THOROUGH else 2), "codes of every length")
    return finish(r, "exploration", RULE,
                  ["passwords ending in a NUL character are not covered: codes are zero-padded",
                   "an empty password comes from other implementations only"], 30)
