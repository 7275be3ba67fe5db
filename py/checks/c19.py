"""C19: set-primary starts over: the new primary password opens an empty storage, nothing of the old one is left or usable."""
import json, os, random
import cli, common, gen, ref, term
from cli import P_NEW, P_PRIMARY, P_REPEAT, P_RESET, P_STORED
from common import Runner, Scratch, finish, Violation

RULE = ("histories of set-primary (accepted, too short, not repeated exactly, declined, input cut off) on storages of all "
        "kinds: missing, full, foreign, damaged, of other versions, with additional data, as links; old and new primary "
        "passwords from a pool of close relatives (case, blanks, prefixes, Unicode forms). After every one the file is read "
        "independently and probed through the program: what opens it, what is in it, what it shares with any earlier state. "
        "Non-trivial: a history step on an existing file.")

POOL = ["foobar", "Foobar", "foobar2", "foobarfoobar", "barfoo", "foo bar", "foo  bar", "p\u00e4ssword", "pa\u0308ssword", "\u65e5\u672c", "\U0001f600\U0001f600", "123456",
        "x" * 63, "x" * 64, "x" * 65, "x" * 200, "q\"uote\\d", "tab\tbed", "-y", "--assume-yes", "'; rm", "a\u00a0b\u00a0c", "\ufeffbom123"]
SHORT = ["", "a", "abcde", "abcd\u00e9"[1:], "\u65e5ab", " abcde ", "abcde", "\u00a0abcd\u00a0", "\u00e9\u00e9", "\u65e5", "    ", "ab   c"[:5], "12345", "\U0001f600"]


def strong(p):
    return len(p.strip().encode()) >= 6


class World:
    def __init__(self, rng, obs, d):
        self.rng, self.obs, self.d, self.path = rng, obs, d, d + "/s"
        self.current = None          # primary password of a readable storage
        self.old = []                # primary passwords of former ones
        self.seen = set()            # every value and key any earlier state had
        self.entries = 0

    def note(self):
        """Remembers what is in the file now."""
        try:
            data = json.load(open(self.path))["data"]
        except Exception:
            return
        if isinstance(data, dict):
            for k, v in data.items():
                self.seen.add(k)
                if isinstance(v, str):
                    self.seen.add(v)

    def fill(self):
        """Passwords through the program itself."""
        rng, U = self.rng, [(P_PRIMARY, self.current)]
        with cli.Shell(self.path, self.current, self.d + "/h", cwd=self.d) as sh:
            for s in ("a.com", "b.com"):
                sh.cmd(["add", "-y", s, "me"])
                sh.cmd(["add-stored", "-y", s, "you"], [(P_STORED, "Secret " + gen.token(rng))])
            sh.cmd(["alias", "al.com", "a.com"])
            sh.close()
        self.note()

    def spoil(self):
        """Makes the file something else."""
        rng, path = self.rng, self.path
        kind = rng.choice(["garbage", "empty", "newer", "truncated", "additional data", "other application", "lost salt", "old format", "binary", "link",
                           "lost hmac-secret", "dropped", "broken entry", "duplicate salt"])
        self.obs.count("file: " + kind)
        t = open(path, errors="replace").read()
        try:
            doc = json.loads(t)
            assert isinstance(doc["data"], dict)
        except Exception:
            doc = {"application": "pfp", "format": 3, "data": {"x": "y"}}
            t = json.dumps(doc)
        if kind == "garbage":
            t = "not a storage {"
        elif kind == "empty":
            t = ""
        elif kind == "newer":
            doc["format"] = 4
            t = json.dumps(doc)
        elif kind == "old format":
            doc["format"] = 2
            t = json.dumps(doc)
        elif kind == "truncated":
            t = t[:len(t) * 2 // 3]
        elif kind == "additional data":
            doc["data"]["site:AAAA"] = doc["data"].get("salt", "x")
            doc["data"]["whatever"] = "AAAA_BBBB"
            t = json.dumps(doc)
        elif kind == "other application":
            doc["application"] = "other"
            t = json.dumps(doc)
        elif kind in ("lost salt", "lost hmac-secret"):
            doc["data"].pop(kind[5:], None)
            t = json.dumps(doc)
        elif kind == "binary":
            t = None
        elif kind == "broken entry":
            for k in list(doc["data"]):
                if k.startswith("site:"):
                    doc["data"][k] = "????"
            t = json.dumps(doc)
        elif kind == "duplicate salt":
            t = json.dumps(doc).replace('"data": {', '"data": {"salt": "AAAA", ', 1)
        if kind == "dropped":
            os.unlink(os.path.realpath(path))
        elif t is None:
            open(path, "wb").write(b"\x80\xff\0\1" * 200)
        else:
            open(path, "w").write(t)
        if kind == "link" and not os.path.islink(path):
            os.rename(path, self.d + "/real")
            os.symlink("real", path)
        if kind not in ("additional data", "broken entry", "link"):
            if self.current is not None:
                self.old.append(self.current)
            self.current = None
        self.note()
        return kind

    def raw(self):
        try:
            return open(self.path, "rb").read()
        except OSError:
            return None

    def fresh(self, new, what):
        """The file is an empty storage of the new primary password and has nothing in common with earlier ones."""
        try:
            text = open(self.path).read()
            p = ref.read_storage(text, new)
        except (OSError, UnicodeDecodeError, ref.FormatError) as e:
            raise Violation("%s: no storage for the new primary password: %s" % (what, e))
        if p.sites or p.passwords or set(p.raw) != {"salt", "hmac-secret"}:
            raise Violation("%s: not an empty storage: %r" % (what, sorted(p.raw)))
        if len(p.salt) < 16 or len(p.hmac_secret) < 32:
            raise Violation("%s: salt of %d bytes, HMAC secret of %d" % (what, len(p.salt), len(p.hmac_secret)))
        for v in p.raw.values():
            if v in self.seen:
                raise Violation("%s: %r was in an earlier storage already" % (what, v))
        for v in (ref.b64(p.hmac_secret), ref.b64(p.salt)):
            if v in self.seen:
                raise Violation("%s: salt or HMAC secret are not new" % what)
        self.seen.add(ref.b64(p.hmac_secret))
        self.seen.add(ref.b64(p.key))
        self.note()

    def probe(self, what):
        """Through the program: only the new primary password opens it, it is empty, it works."""
        rng, now = self.rng, self.current
        wrong = [x for x in self.old + rng.sample(POOL, 3) if strong(x) and x.strip() != now.strip()]
        wrong = rng.sample(wrong, min(2, len(wrong)))
        before = self.raw()
        r = cli.run(self.path, ["list", "-sv"], [(P_PRIMARY, x) for x in wrong + [now]], cwd=self.d)
        if r.unmet is not None or r.err.count(b"Decryption failure") != len(wrong):
            raise Violation("%s: of the primary passwords %r, then %r, not just the last opens the storage: %r" % (what, wrong, now, r))
        if r.rc != 0 or not r.out.endswith(b"No matching passwords found.\n"):
            raise Violation("%s: the new storage is not empty: %r" % (what, r))
        if self.raw() != before:
            raise Violation("%s: looking changes the file" % what)
        self.obs.count("other primary passwords refused", len(wrong))


def history(rng, obs, n):
    with Scratch() as d:
        w = World(rng, obs, d)
        for _ in range(n):
            if w.raw() is not None and rng.random() < .55:
                if w.current is not None and rng.random() < .5:
                    w.fill()
                else:
                    w.spoil()
            there = os.path.exists(w.path)
            new = rng.choice([x for x in POOL if strong(x)] + ([w.current] if w.current else []) + w.old)
            k = rng.randrange(12)
            typed, dlg, works, refused = new, [], True, False
            if rng.random() < .15:
                typed = rng.choice([" ", "\t", "\u00a0"]) + new + rng.choice(["  ", "", "\u3000"])
            if k == 0:
                short = rng.choice(SHORT)
                # repeated, should the program want it
                dlg, works, refused = [(P_NEW, short), (P_REPEAT, short)], False, True
            elif k in (1, 2):
                other = rng.choice([new + "x", new[:-1], new.swapcase() if new.swapcase() != new else new + "y", new + " " + new, "", rng.choice([x for x in POOL if x != new]),
                                    new[0] + new])
                if other.strip() == new.strip():
                    continue
                dlg, works = [(P_NEW, typed), (P_REPEAT, other)], False
            elif k == 3:
                dlg, works = rng.choice([[(P_NEW, None)], [(P_NEW, typed), (P_REPEAT, None)]]), False
            else:
                dlg = [(P_NEW, typed), (P_REPEAT, rng.choice([typed, new]))]
            words, pre = ["set-primary"], []
            if there and rng.random() < .5:
                if rng.random() < .2:
                    pre, dlg, works, refused = [(P_RESET, rng.choice(["n", "", "no"]))], [], False, False
                else:
                    pre = [(P_RESET, "y")]
            elif there or rng.random() < .2:
                words.append(rng.choice(["-y", "--assume-yes"]))
            before = w.raw()
            what = "set-primary %r given %r" % (words[1:], [x for _, x in pre + dlg])
            if rng.random() < .12 and not pre and all(x is not None and "\t" not in x for _, x in dlg):
                what += " on a terminal"
                with term.Term(["-c", w.path] + words, cwd=d) as t:
                    left, _ = term.dialogue(t, dlg)
                    rc, out, unmet = t.wait(), t.screen, left[0][0] if left else None
            else:
                r = cli.run(w.path, words, pre + dlg, cwd=d)
                rc, out, unmet = r.rc, r.out, r.unmet
                if r.panicked():
                    raise Violation("%s: crash: %r" % (what, r))
            if unmet is not None and not (refused and unmet == P_REPEAT):
                raise Violation("%s: never shows %r: %r" % (what, unmet, out[-300:]))
            done = b"New primary password set" in out
            if works:
                if rc != 0 or not done:
                    raise Violation("%s: refused: %r" % (what, out[-300:]))
                if w.current is not None:
                    w.old.append(w.current)
                w.current = new.strip()
                w.old = [x for x in dict.fromkeys(w.old) if x != w.current]
                w.fresh(w.current, what)
                w.probe(what)
            else:
                if rc == 0 and refused:
                    raise Violation("%s: succeeds: %r" % (what, out[-300:]))
                if done or w.raw() != before:
                    raise Violation("%s: must not change anything: %r" % (what, out[-300:]))
                if w.current is not None and rng.random() < .5:
                    r = cli.run(w.path, ["list"], [(P_PRIMARY, w.current)], cwd=d)
                    if r.rc != 0 or r.unmet:
                        raise Violation("%s: the old primary password does not open the storage any more: %r" % (what, r))
            obs.case((what, works, before and len(before)), before is not None, {"what": what, "replaced": works})
            obs.count("replaced" if works else "refused, kept")


def main():
    common.build_cli()
    r = Runner("C19", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(history, [(9,)] * (24 * m), "histories")
    return finish(r, "exploration", RULE,
                  ["a declined or failed set-primary leaves the file alone, an accepted one leaves nothing of it; copies elsewhere are out of scope"], 100)
