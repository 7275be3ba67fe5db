"""C09: without the primary password nothing is read, told or changed; locking a shell restores that."""
import os, unicodedata
import cli, common, gen, ref
from cli import P_PRIMARY, P_STORED, P_NOTES, P_CODE, P_OVERWRITE
from common import Runner, Scratch, finish, Violation
from tree import snapshot, changes

RULE = ("every command is given sequences of wrong primary passwords (near misses of the right one: prefixes, extensions, case "
        "and single character changes, other Unicode normalisations, the primary password of another storage, texts from the "
        "storage itself), too short ones, empty lines and end of input, in fresh processes and in shells before unlocking and "
        "after lock; until the right one is given no output may contain anything from the storage (all sites, names, notes, "
        "passwords are unique markers), the command must not act and the file must stay; with the right one it must act. "
        "Non-trivial: a sequence with at least one wrong attempt.")

NOTICE_SHORT = b"Primary password length should be at least 6 characters."


def same_key(x, p):
    """HMAC, and so scrypt, does not tell apart keys which differ in ending NULs only, or a long key and its hash."""
    return x.rstrip("\0") == p.rstrip("\0")


def near(rng, p):
    """Passwords that are not p even after trimming."""
    i = rng.randrange(len(p))
    if rng.random() < .3:
        for _ in range(50):
            # agreeing in a long part with it
            j = rng.choice([1, 8, 16, 32, 55, 56, 63, 64, 71, 72, 73, 127, 128, 129, 199, 255, 256, 257, len(p) - 1, rng.randrange(len(p))])
            x = rng.choice([p[:j], p[:j] + "x" * (len(p) - j), p[:j] + p[j + 1:], p[:j] + gen.variant(rng, p[j:]), p[j:], gen.variant(rng, p)])
            if gen.trim(x) != p and "\n" not in x and not same_key(x, p):
                return x
    c = [p[:-1], p[1:], p + "x", p + p, p.swapcase(), p[::-1], p[:i] + chr(ord(p[i]) ^ 1) + p[i + 1:], p[:i] + p[i + 1:],
         p[:i] + p[i] + p[i:], unicodedata.normalize("NFD", p), unicodedata.normalize("NFC", p), unicodedata.normalize("NFKC", p),
         p.replace(" ", ""), p.replace(" ", "  "), "foobar", "password", p[:8], p[:len(p) // 2] + " " + p[len(p) // 2:],
         p.encode().hex(), "x" * len(p), "x" * 5000, p[:6], p + " .", "'" + p + "'"]
    c = [x for x in c if x.strip() != p and "\n" not in x]
    return rng.choice(c)


class World:
    def __init__(self, rng, d, short=True):
        t = lambda: gen.token(rng, 10)
        self.primary = rng.choice([gen.token(rng, rng.randint(6, 12)), "pä ss wört " + t(), t() + "é ñ", "日本語" + t(), t() * 9, t() * rng.choice([6, 13, 26, 52]), gen.trim(gen.text(rng, 6, 16)) + t(), "\"" + t() + "\\",
                                   "ﬁ " + t()] + ([rng.choice(["äöü", "日本", "ключ", "😀ß", "é€ß", "日a本"])] * 3 if short else []))
        self.site, self.name, self.gname = "s%s.com" % t(), "n" + t(), "g" + t()
        self.alias, self.empty = "al%s.com" % t(), "em%s.com" % t()
        self.pw, self.notes = "pw" + t(), "no" + t()
        es = [dict(type="stored", site=self.site, name=self.name, revision="", password=self.pw, notes=self.notes),
              dict(type="generated2", site=self.site, name=self.gname, revision="", length=16,
                   **{c: True for c, _ in ref.CLASSES})]
        self.text, self.hs, self.key, self.salt = ref.build_storage(self.primary, {self.site: None, self.alias: self.site, self.empty: None}, es)
        self.gen = ref.generate(self.primary, self.site, self.gname, "", 16, tuple(c for c, _ in ref.CLASSES))
        self.path = d + "/storage.json"
        open(self.path, "w").write(self.text)
        self.markers = [self.primary, self.site[1:], self.name, self.gname, self.alias, self.empty, self.pw, self.notes, self.gen]
        self.code = ref.make_code(self.pw, self.salt, self.key)
        self.other = "another primary " + t()

    def commands(self, rng, harmless=False):
        """words, dialogue after unlocking, what shows that it acted; the words themselves may hold markers."""
        s = rng.choice([self.site, "www." + self.site, self.alias])
        c = [
            (["show", s, self.name], [], self.pw.encode() + b"\n"),
            (["show", s, self.gname], [], self.gen.encode() + b"\n"),
            (["show", "-q", s, self.name], [], "\u2588".encode()),
            (["notes", s, self.name], [], self.notes.encode()),
            (["list"], [], ("Passwords for %s:" % self.site).encode()),
            (["list", "-s", "-v", "-r"], [], self.pw.encode()),
            (["alias", self.alias], [], b"is an alias for '" + self.site.encode()),
            (["add", "new.com", "x"], [], b"Password added."),
            (["add", "-y", s, self.name], [], b"Password added."),
            (["add", s, self.name], [(P_OVERWRITE, "y")], b"Password added."),
            (["add-stored", "new.com", "x"], [(P_STORED, "abc")], b"Password added."),
            (["add-stored", "-c", "new.com", "x"], [(P_CODE, self.code.replace("\n", ""))], b"Password added."),
            (["remove", s, self.name], [], b"Password removed."),
            (["notes", "-s", s, self.name], [(P_NOTES, "changed")], b"Notes stored."),
            (["alias", "new.com", s], [], b"Alias added."),
            (["alias", "-r", self.alias], [], b"Alias removed."),
            (["show", "no.such", "x"], [], None),
            (["remove", s, "nobody"], [], None),
        ]
        if harmless:
            c = [x for x in c if x[0][0] not in ("add", "remove", "alias") and "-s" not in x[0] or x[0][0] == "list" or x[2] is None
                 or x[0] == ["alias", self.alias]]
        return rng.choice(c)


def attempts(rng, w, n):
    out = []
    for _ in range(n):
        k = rng.randrange(8)
        if k == 0:
            out.append(rng.choice(["", "a", "12345", "éé", "     ", "  abcde  ", "\t", "äöü"[:2]]))  # less than 6 bytes
        elif k == 1:
            out.append(w.other)
        elif k == 2:
            out.append(rng.choice([w.pw, w.name, w.site, w.gen, ref.b64(w.key), ref.b64(w.hs), w.key.hex(), ref.b64(w.salt), w.primary + w.primary]))
        else:
            out.append(near(rng, w.primary))
    return out


def silent(w, text, words, what):
    """No marker in the output except what the user typed on the command line."""
    given = "\0".join(words)
    for m in w.markers:
        if m.encode() in text and m not in given:
            raise Violation("%s: %r of the storage is shown before unlocking" % (what, m), output=repr(text[-1500:]))


def oneshot(rng, obs):
    with Scratch() as d:
        w = World(rng, d)
        for i in range(3):
            open(w.path, "w").write(w.text)
            words, dlg, mark = w.commands(rng)
            n = rng.choice([0, 1, 1, 2, 3, 3, rng.randint(4, 11)]) if rng.random() < .97 else rng.choice([17, 33, 65, 101])
            tries = attempts(rng, w, n)
            right = rng.random() < .5
            what = "%r after %r%s" % (words, tries, " and the right password" if right else " and the end of input")
            before = snapshot(d)
            a = ["--stdin-passwords", "-c", w.path] + words
            with cli.Proc(a, cwd=d) as p:
                for t in tries:
                    if p.expect(P_PRIMARY) is None:
                        p.finish()
                        raise Violation("%s: not asked for the primary password again: %r %r" % (what, p.out, p.err))
                    p.line(t)
                    want = NOTICE_SHORT if len(t.strip().encode()) < 6 else None
                    e0 = p.epos
                    if p.expect((b"\n",), "err") is None:
                        p.finish()
                        raise Violation("%s: no complaint about %r: out %r err %r" % (what, t, p.out, p.err))
                    if want and want not in p.err[e0:p.epos]:
                        raise Violation("%s: the complaint about the short %r is %r" % (what, t, p.err[e0:p.epos]))
                    obs.count("wrong_attempts")
                if p.expect(P_PRIMARY) is None:
                    p.finish()
                    raise Violation("%s: not asked for the primary password: %r %r" % (what, p.out, p.err))
                silent(w, p.out + p.err, words, what)
                if changes(before, snapshot(d)):
                    raise Violation("%s: files change before unlocking" % what)
                if not right:
                    rc = p.finish()
                    silent(w, p.out + p.err, words, what)
                    if rc == 0 or rc < 0 or rc == 101:
                        raise Violation("%s: exit status %s: %r" % (what, rc, p.err[-300:]))
                    if changes(before, snapshot(d)):
                        raise Violation("%s: files changed without the primary password" % what)
                else:
                    p.line(rng.choice(["", " ", "\t"]) + w.primary + rng.choice(["", " ", "\r"]))
                    for pr, re in dlg:
                        if p.expect(pr) is None:
                            raise Violation("%s: unlocked, but never asks %r: %r %r" % (what, pr, p.out[-300:], p.err[-300:]))
                        p.line(re)
                    rc = p.finish()
                    if mark is None:
                        if rc == 0:
                            raise Violation("%s succeeds: %r" % (what, p.out))
                    elif rc != 0 or mark not in p.out:
                        raise Violation("%s: the right primary password is not accepted: %s %r %r" % (what, rc, p.out[-300:], p.err[-300:]))
                    if p.out.count(P_PRIMARY) != n + 1:
                        raise Violation("%s: asked %d times for the primary password" % (what, p.out.count(P_PRIMARY)))
                    obs.count("unlocked")
            obs.case((words, tries, right), n > 0, {"command": words[:1], "attempts": [t[:30] for t in tries], "then": right})


def session(rng, obs, n):
    with Scratch() as d:
        w = World(rng, d)
        os.mkdir(d + "/h")
        locks = 0
        with cli.Shell(w.path, w.primary, d + "/h/hist", cwd=d) as sh:
            o0 = 0
            for i in range(n):
                words, dlg, mark = w.commands(rng, True)
                if not sh.unlocked:
                    tries = attempts(rng, w, rng.choice([0, 1, 2]))
                    before = snapshot(d)
                    o, e = len(sh.p.out), len(sh.p.err)
                    line = " ".join(cli.shell_quote(x) for x in words)
                    what = "%r in a locked shell after %r" % (words, tries)
                    sh.p.line(line)
                    for t in tries:
                        if sh.p.expect(P_PRIMARY) is None:
                            raise Violation("%s: the shell ends: %r" % (what, sh.p.err[-300:]))
                        if sh.p.pos - o > 4000:
                            break
                        sh.p.line(t)
                        obs.count("wrong_attempts_in_shells")
                    if sh.p.expect(P_PRIMARY) is None:
                        raise Violation("%s: the shell ends: %r" % (what, sh.p.err[-300:]))
                    silent(w, sh.p.out[o:] + sh.p.err[e:], words, what)
                    if changes(before, snapshot(d)):
                        raise Violation("%s: files change before unlocking" % what)
                    sh.p.line(w.primary)
                    sh.unlocked = True
                    for pr, re in dlg:
                        if sh.p.expect(pr) is None:
                            raise Violation("%s: never asks %r" % (what, pr))
                        sh.p.line(re)
                        sh.p.drained()
                    # the end of the command's output
                    m = sh._mark().encode()
                    sh.p.line(m)
                    if sh.p.expect(m, "err") is None:
                        raise Violation("%s: the shell ends: %r" % (what, sh.p.err[-300:]))
                    while sh.p._pump(0):
                        pass
                    out = sh.p.out[o:]
                    sh.p.pos = len(sh.p.out)
                    if mark is not None and mark not in out:
                        raise Violation("%s: the right password is not accepted: %r %r" % (what, out[-300:], sh.p.err[-300:]))
                    obs.case(("shell", words, tries), len(tries) > 0, {"shell": words[:1], "attempts": [t[:30] for t in tries]})
                    obs.count("unlocked_in_shells")
                else:
                    out, err, unmet = sh.cmd_raw(" ".join(cli.shell_quote(x) for x in words), dlg)
                    if P_PRIMARY in out:
                        raise Violation("%r asks for the primary password although the shell is unlocked" % (words,))
                    if mark is not None and mark not in out:
                        raise Violation("%r in an unlocked shell: %r %r" % (words, out, err))
                    obs.count("commands_while_unlocked")
                if rng.random() < .4:
                    out, err, _ = sh.lock()
                    if b"locked" not in out or err:
                        raise Violation("lock prints %r %r" % (out, err))
                    locks += 1
                    if rng.random() < .3:
                        sh.lock()  # locking twice is harmless
                if words[0] == "add-stored":
                    out, err, _ = sh.cmd(["remove", "new.com", "x"])
        obs.count("locks", locks)


def marathon(rng, obs, n):
    """The primary password is asked for once in a session, however long it gets, or anew after each lock."""
    with Scratch() as d:
        w = World(rng, d)
        hist = d + "/h"
        with cli.Proc(["--stdin-passwords", "-c", w.path, "shell", "-s", hist], cwd=d) as p:
            pool = ["show %s %s" % (w.site, w.name), "notes %s %s" % (w.site, w.name), "alias " + w.alias, "list " + w.site, "show %s nobody" % w.site,
                    "remove no.such x", "help", "nosuch", "help list", "alias no.such"]
            asked = want = done = 0
            unlocked = False
            first = []
            while done < n:
                batch = []
                for _ in range(rng.choice([1, 5, 99, 100, 101, 300])):
                    x = rng.random()
                    batch.append("show %s n%d" % (w.site, rng.randrange(10 ** 6)) if x < .3 else rng.choice(first) if first and x < .5 else rng.choice(pool))
                if not unlocked:
                    batch = ["show %s %s" % (w.site, w.name)]
                first = (first + batch)[-200:]
                for line in batch:
                    p.line(line)
                if not unlocked:
                    if p.expect(P_PRIMARY) is None:
                        raise Violation("a locked shell does not ask for the primary password: %r" % p.out[-300:])
                    p.line(w.primary)
                    want += 1
                    unlocked = True
                end = "marathon%dx" % done
                p.line(end)
                if p.expect(end.encode(), "err") is None:
                    raise Violation("the shell ends, or asks for something, after %d commands: %r %r" % (done, p.out[-300:], p.err[-300:]))
                done += len(batch)
                asked = p.out.count(P_PRIMARY)
                if asked != want:
                    raise Violation("the shell asks for the primary password %d times instead of %d in %d commands" % (asked, want, done), last=batch[-5:])
                if rng.random() < .1:
                    p.line("lock")
                    unlocked = False
            shown = p.out.count(w.pw.encode())
            if p.finish() != 0 or not shown:
                raise Violation("after %d commands a shell ends with %r" % (done, p.rc), stderr=repr(p.err[-500:]))
            obs.case(("marathon", done, want), True, {"commands": done, "unlocked": want})
            obs.count("commands in long sessions", done)


def main():
    common.build_cli()
    r = Runner("C09", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(marathon, [(2500,)] * (4 * m), "long sessions")
    r.run(oneshot, [()] * (80 * m), "one process per command")
    r.run(session, [(14,)] * (24 * m), "shells")
    return finish(r, "exploration", RULE,
                  ["surrounding blanks of a typed password do not count", "set-primary replaces the storage without the old "
                   "password by design"], 50)
