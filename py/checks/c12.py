"""C12: mistakes in a recovery code are noticed at the line they are in, correct lines are kept, and nothing but the
password the code was made for is ever stored."""
import os
import api, cli, codes, common, gen, ref
from cli import P_CODE, P_PRIMARY, P_STORED
from common import Runner, Scratch, finish, Violation

RULE = ("recovery codes with every kind of mistake (characters replaced, dropped, doubled, transposed, moved; lines dropped, "
        "doubled, swapped, from other codes or cut; additional lines and characters; checksums made to fit over altered "
        "data; unknown versions; too little data) are typed into add-stored -c, with corrections, repeated mistakes, answers "
        "to the question about extra data, empty lines and ends of input; an independent implementation of the format says "
        "line by line what the dialogue has to answer and what the outcome is. The library's decoder reads codes with every "
        "single character replaced, dropped, doubled or transposed. Non-trivial: a dialogue with a mistake in it.")

MESSAGES = {"decrypt": b"Decryption failure, wrong primary password?",
            "version": b"Wrong recovery code version, generated by a newer application version?",
            "short": b"Not enough data in the recovery code.",
            "utf8": b"Corrupt UTF-8 data in storage"}


def typo(rng, line, other):
    """The line with a mistake, as a user could make it."""
    k = rng.randrange(14)
    idx = [i for i, c in enumerate(line) if c.isalnum()]
    i = rng.choice(idx)
    if k in (0, 1, 2):
        return line[:i] + rng.choice([c for c in ref.ALPHABET if c != line[i]]) + line[i + 1:]
    if k == 3:
        return line[:i] + rng.choice("10IO") + line[i + 1:]
    if k == 4:
        return line[:i] + line[i + 1:]
    if k == 5:
        return line[:i] + line[i] + line[i:]
    if k == 6:
        j = idx[(idx.index(i) + 1) % len(idx)]
        s = list(line)
        s[i], s[j] = s[j], s[i]
        return "".join(s)
    if k == 7:
        j = rng.choice(idx)
        s = list(line)
        s[i], s[j] = s[j], s[i]
        return "".join(s)
    if k == 8:
        q = line.replace(":", "-").split("-")
        a, b = rng.sample(range(len(q)), 2)
        q[a], q[b] = q[b], q[a]
        return "-".join(q)
    if k == 9:
        return line[:rng.randrange(1, len(line))]
    if k == 10:
        return line + rng.choice(ref.ALPHABET) * rng.choice([1, 4, 24])
    if k == 11:
        return rng.choice(other)
    if k == 12:
        return ref.fmt_line("".join(rng.choice(ref.ALPHABET) for _ in range(24)))
    return rng.choice(["garbage", "?", "what now", "zzzz-zzzz", "A" * 24, "abc" * 40, "\u00e4\u00f6\u00fc", line[::-1]])


def refit(rng, code, key_rows):
    """Code text whose checksums fit although the data was altered."""
    d = bytearray(ref.parse_code(code))
    k = rng.randrange(8)
    if k == 0:
        d[0] = rng.choice([0, 2, 3, 255, 129])
    elif k == 1:
        d = d[:rng.choice([14, 28, 42])]
    elif k in (2, 3):
        i = rng.randrange(1, len(d))
        d[i] ^= 1 << rng.randrange(8)
    elif k == 4:
        d = d + bytes(14)
    elif k == 5:
        d = d[:-14] if len(d) > 56 else d[:-14] + bytes(14)
    elif k == 6:
        a, b = rng.sample(range(len(d) // 14), 2)
        x, y = bytes(d[a * 14:a * 14 + 14]), bytes(d[b * 14:b * 14 + 14])
        d[a * 14:a * 14 + 14], d[b * 14:b * 14 + 14] = y, x
    else:
        d[29:] = bytes(rng.randrange(256) for _ in range(len(d) - 29))
    return ref.rows_to_code(bytes(d))


def script(rng, good, other, key):
    """Lines to type, answers about extra data."""
    g = good.split("\n")
    o = other.split("\n")
    k = rng.randrange(12)
    if k < 4:      # mistakes, then the right line again (what the program asks for)
        out = []
        patient = rng.randrange(len(g)) if rng.random() < .1 else None
        for i, x in enumerate(g):
            for _ in range(rng.choice([0, 0, 1, 1, 2]) if i != patient else rng.choice([9, 17, 33, 65, 101])):
                out.append(typo(rng, x, o + g))
            out.append(x)
        if rng.random() < .3:
            out += g
    elif k == 4:   # line order
        out = list(g)
        i, j = rng.randrange(len(g)), rng.randrange(len(g))
        c = rng.randrange(4)
        if c == 0:
            out[i], out[j] = out[j], out[i]
        elif c == 1:
            del out[i]
        elif c == 2:
            out.insert(i, out[j])
        else:
            out[i] = rng.choice(o)
        out += g[rng.randrange(len(g)):] if rng.random() < .5 else []
    elif k == 5:   # everything at once, with a mistake
        x = list(g)
        i = rng.randrange(len(x))
        x[i] = typo(rng, x[i], o)
        out = [" ".join(x)] + g[rng.randrange(i + 1):]
    elif k in (6, 7):  # extra data
        e = rng.choice([["A"], [g[-1]], ["".join(o)], ["ABCD-"], ["".join(rng.choice(ref.ALPHABET) for _ in range(rng.randint(1, 60)))]])
        out = ["".join(g) + e[0]] if rng.random() < .5 else g[:-1] + [g[-1] + e[0]]
    elif k == 8:   # other code in the middle
        n = rng.randrange(len(g))
        out = g[:n] + o[n:] + g[n:]
    elif k in (9, 10):
        x = refit(rng, good, key).split("\n")
        out = x if rng.random() < .5 else ["".join(x)]
    else:
        out = [typo(rng, x, o) for x in g * 2]
    if rng.random() < .25 and len(out) > 1:  # give up
        n = rng.randrange(1, len(out))
        out = out[:n] + [rng.choice(["", "", "  ", "\t"])]
    ans = [rng.choice(["y", "yes", "Y", "", "", "n", "no", "NO"])]
    if rng.random() < .3:
        ans = [rng.choice(["maybe", "x", "yess", g[0]])] + ans
    return out, ans


def secret(rng):
    return gen.secret(rng, 1, rng.choice([5, 40, 100, 100, 300]))


def judge(words, lines, answers, out, err, unmet, want_err, outcome, primary, rc=None):
    what = "%r given %r (answers %r)" % (words, lines, answers)
    if outcome[0] == "value":
        if unmet is not None or not out.endswith(b"Password added.\n"):
            raise Violation("%s: the code is complete and right, but is not taken: never asked %r, %r %r" % (
                what, unmet, out[-400:], err[-400:]))
        tail = b""
    else:
        if unmet is not None:
            raise Violation("%s: the dialogue ends early, %r was expected: %r %r" % (what, unmet, out[-400:], err[-400:]))
        if b"Password added" in out:
            raise Violation("%s: a password is stored, expected was %r: %r %r" % (what, outcome, out[-400:], err[-400:]))
        tail = MESSAGES[outcome[1]] if outcome[0] == "error" else b""
    want = want_err.encode()
    if not err.startswith(want):
        raise Violation("%s: the lines are judged differently: %r instead of %r" % (what, err[-800:], want[-800:]))
    rest = err[len(want):].strip()
    if tail and tail not in rest or not tail and rest:
        raise Violation("%s: reports %r instead of %r" % (what, rest[-400:], tail))


def session(rng, obs, n):
    primary = rng.choice(gen.PRIMARIES)
    with Scratch() as d:
        path = d + "/s"
        cli.init_storage(path, primary, cwd=d)
        salt = os.urandom(16)
        key = ref.storage_key(primary, salt)
        with cli.Shell(path, primary, d + "/h", cwd=d) as sh:
            sh.cmd(["add-stored", "kept.com", "x"], [(P_STORED, "the kept one")])
            for i in range(n):
                pws = [secret(rng), secret(rng)]
                good, other = (ref.make_code(p, salt, key) for p in pws)
                lines, answers = script(rng, good, other, key)
                dlg, want_err, outcome = codes.simulate(lines, answers, primary)
                if outcome == ("open",):
                    if dlg[-1][0] == codes.P_EXTRA:
                        dlg.append((codes.P_EXTRA, "no"))
                    else:
                        dlg.append((P_CODE, ""))
                    outcome = ("abort",)
                if outcome[0] == "value" and outcome[1] not in pws:
                    raise AssertionError("the reference took an altered code")
                site = rng.choice(["kept.com", "new%d.com" % i])
                words = ["add-stored", "-c", "-y", site, "x"]
                before = open(path, "rb").read()
                out, err, unmet = sh.cmd(words, dlg)
                judge(words, lines, answers, out, err, unmet, want_err, outcome, primary)
                obs.count("lines_typed", len(dlg))
                obs.count("outcome: " + " ".join(outcome[:2] if outcome[0] == "error" else outcome[:1]))
                if outcome[0] != "value":
                    if open(path, "rb").read() != before:
                        raise Violation("%r: the storage changes although no valid code was given" % (lines,))
                else:
                    out, err, _ = sh.cmd(["show", site, "x"])
                    if err or not out.endswith(b"\n" + outcome[1].encode() + b"\n"):
                        raise Violation("%r restores %r instead of %r" % (lines, out, outcome[1]))
                    if site == "kept.com":
                        sh.cmd(["add-stored", "-y", "kept.com", "x"], [(P_STORED, "the kept one")])
                for m in ("The following lines were accepted", "doesn't seem valid, please", "still incomplete"):
                    obs.count("message: " + m, want_err.count(m))
                obs.count("asked about extra data", sum(p == codes.P_EXTRA for p, _ in dlg))
                obs.case((lines, answers), lines != good.split("\n"),
                         {"lines": lines[:6], "answers": answers, "outcome": outcome[:2] if outcome[0] == "error" else outcome[0]})
            out, err, _ = sh.cmd(["show", "kept.com", "x"])
            if not out.endswith(b"\nthe kept one\n"):
                raise Violation("an entry got lost: %r %r" % (out, err))


def one_substitution(rng, obs, n):
    """Every single wrong character in the first line is noticed at once, unless its checksum collides."""
    primary = "substitutions"
    with Scratch() as d:
        path = d + "/s"
        cli.init_storage(path, primary, cwd=d)
        salt = os.urandom(16)
        key = ref.storage_key(primary, salt)
        with cli.Shell(path, primary, d + "/h", cwd=d) as sh:
            good = ref.make_code("some password", salt, key).split("\n")
            row = rng.randrange(len(good))
            lines = good[:row]
            for _ in range(n):
                i = rng.choice([i for i, c in enumerate(good[row]) if c.isalnum()])
                x = good[row][:i] + rng.choice([c for c in ref.ALPHABET if c != good[row][i]]) + good[row][i + 1:]
                try:
                    ref.parse_code("\n".join(good[:row] + [x]))
                except ref.CodeError as e:
                    if e.kind == "mismatch":
                        lines.append(x)
                        continue
                obs.count("checksum collisions skipped")
            lines += good[row:]
            dlg, want_err, outcome = codes.simulate(lines, [], primary)
            words = ["add-stored", "-c", "x.com", "x"]
            out, err, unmet = sh.cmd(words, dlg)
            judge(words, lines, [], out, err, unmet, want_err, outcome, primary)
            obs.count("single wrong characters noticed", len(lines) - len(good))
            obs.case(lines, True)


def oneshot(rng, obs):
    """In a process of its own: exit status, end of input in the middle."""
    primary = "one shot"
    with Scratch() as d:
        path = d + "/s"
        cli.init_storage(path, primary, cwd=d)
        salt = os.urandom(16)
        key = ref.storage_key(primary, salt)
        for i in range(3):
            pws = [secret(rng), secret(rng)]
            good, other = (ref.make_code(p, salt, key) for p in pws)
            lines, answers = script(rng, good, other, key)
            dlg, want_err, outcome = codes.simulate(lines, answers, primary)
            words = ["add-stored", "-c", "-y", "x.com", "x%d" % i]
            before = open(path, "rb").read()
            eof = False
            if outcome == ("open",) or rng.random() < .3:
                n = rng.randint(1, len(dlg))
                while n and (dlg[n - 1][0] == codes.P_EXTRA or n < len(dlg) and dlg[n][0] == codes.P_EXTRA):
                    n -= 1
                if n < 1:
                    continue
                if n < len(dlg) or outcome == ("open",):
                    eof = True
                    dlg = dlg[:n]
            with cli.Proc(["--stdin-passwords", "-c", path] + words, cwd=d) as p:
                unmet = None
                for pr, re in [(P_PRIMARY, primary)] + dlg:
                    if p.expect(pr) is None:
                        unmet = pr
                        break
                    p.line(re)
                    p.drained()
                rc = p.finish()
                out, err = p.out, p.err
            what = "%r given %r%s" % (words, [r for _, r in dlg], " and the end of input" if eof else "")
            if rc < 0 or rc == 101:
                raise Violation("%s crashes: %r" % (what, err[-400:]))
            if eof:
                if rc == 0 or b"Password added" in out or unmet is not None:
                    raise Violation("%s: rc %s %r %r" % (what, rc, out[-300:], err[-300:]))
            else:
                judge(words, lines, answers, out, err, unmet, want_err, outcome, primary)
                if (rc == 0) != (outcome[0] == "value"):
                    raise Violation("%s: exit status %s, outcome %r" % (what, rc, outcome))
            if outcome[0] != "value" or eof:
                if open(path, "rb").read() != before:
                    raise Violation("%s: the storage changes" % what)
            else:
                o = ref.read_storage(open(path).read(), primary).passwords[("x.com", "x%d" % i, "")]
                if o["password"] != outcome[1]:
                    raise Violation("%s: stores %r instead of %r" % (what, o["password"], outcome[1]))
            obs.case((lines, answers, eof), True)
            obs.count("one shot")


KINDS = {"mismatch": "RecoveryCodeChecksumMismatch", "extra": "RecoveryCodeExtraData", "incomplete": "RecoveryCodeIncomplete",
         "version": "RecoveryCodeWrongVersion", "short": "RecoveryCodeInsufficientData", "decrypt": "DecryptionFailure"}


def variants(rng, code):
    """Every replaced, dropped, doubled or transposed character and line, and some more."""
    t = ref.canonical(code)
    rows = [t[i:i + 24] for i in range(0, len(t), 24)]
    for i in range(len(t)):
        for c in ref.ALPHABET:
            if c != t[i]:
                yield t[:i] + c + t[i + 1:]
        yield t[:i] + t[i + 1:]
        yield t[:i] + t[i] + t[i:]
        yield t[:i] + t[i + 1:i + 2] + t[i] + t[i + 2:]
        yield t[:i]
        j = rng.randrange(len(t))
        yield "".join(t[j] if x == i else t[i] if x == j else c for x, c in enumerate(t))
    for i in range(len(rows)):
        yield "".join(rows[:i] + rows[i + 1:])
        yield "".join(rows[:i] + rows[i:i + 1] + rows[i:])
        yield "".join(rows[i:] + rows[:i])
        for j in range(i):
            r = list(rows)
            r[i], r[j] = r[j], r[i]
            yield "".join(r)
    for i in range(24):
        yield t + "".join(rng.choice(ref.ALPHABET) for _ in range(i + 1))
    for _ in range(60):
        b = bytearray(ref.unb32(t))
        for _ in range(rng.choice([1, 2, 3])):
            b[rng.randrange(len(b))] = rng.randrange(256)
        yield ref.b32(bytes(b))


def exhaustive(rng, obs, size):
    """The library's decoder on all small mistakes in a code."""
    with Scratch() as d, api.Lib(d) as lib:
        primary, salt = gen.token(rng), os.urandom(16)
        key = ref.storage_key(primary, salt)
        secret = "".join(rng.choice(gen.PASSWORD_CHARS) for _ in range(size)).strip() + "x"
        code = ref.make_code(secret, salt, key)
        todo = [x for x in dict.fromkeys(variants(rng, code)) if x != ref.canonical(code)]
        slow = 0
        jobs = []
        for x in todo:
            try:
                b = ref.parse_code(x)
                want = ("version", None) if b[0] != 1 else ("short", None) if len(b) < 45 else ("decrypt", None)
            except ref.CodeError as e:
                want = (e.kind, e.line)
            if want[0] == "decrypt":
                slow += 1
                if slow > 4:
                    continue
            jobs.append((x, want))
        for (x, want), r in zip(jobs, lib.batch([("code", "decode", api.h(x), api.h(primary)) for x, _ in jobs])):
            if r.ok and api.unh(r.value) != secret:
                raise Violation("the code %r with a mistake, %r, is read as %r" % (code, ref.fmt_line(x), api.unh(r.value)))
            if r.ok and want[0] != "decrypt" or not r.ok and r.err != KINDS[want[0]]:
                raise Violation("the code %r with a mistake, %r, gives %r instead of %s in line %s" % (code, x, r, KINDS[want[0]], want[1]))
            if want[1] is not None and "line: %d " % want[1] not in r.debug + " ":
                raise Violation("the code %r with a mistake, %r, gives %r instead of line %s" % (code, x, r, want[1]))
            obs.count("library: " + KINDS[want[0]])
        obs.case((code, len(jobs)), True)
        obs.count("codes with a mistake read by the library", len(jobs))
        r = lib.raw("code", "decode", api.h(code), api.h(primary))
        if not r.ok or api.unh(r.value) != secret:
            raise Violation("the code %r is read as %r instead of %r" % (code, r, secret))


def main():
    common.build_harness()
    common.build_cli()
    r = Runner("C12", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(session, [(30,)] * (24 * m), "dialogues")
    r.run(one_substitution, [(400,)] * (6 * m), "single characters")
    r.run(oneshot, [()] * (24 * m), "one command per process")
    r.run(exhaustive, [(x,) for x in [1, 11, 12, 25, 40, 3, 7, 60]] * m, "all small mistakes")
    return finish(r, "exploration", RULE,
                  ["a mistake that leaves the line's checksum intact (1 in 256) is noticed by the authenticated encryption at the end instead",
                   "secrets end in something else than NUL"], 200)
