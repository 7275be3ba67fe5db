"""C22: options and names mean the same however they are written; what is not documented is refused without effect."""
import os
import cli, common, gen, ref, tree
from cli import P_NEW, P_NOTES, P_OVERWRITE, P_PRIMARY, P_REPEAT, P_STORED
from common import Runner, Scratch, finish, Violation
from model import Model, compare_listing

RULE = ("requests (command, names, options) are written in random ways: options long, short, clustered, with attached or separate values, "
        "in any order before, between and after the names, before or after --, defaults left out or spelled out, the storage given as "
        "-c file, -cfile, --storage file, --storage=file or by a default location; each spelling is run on the same storage, as a command "
        "and in a shell, and its output and the decrypted file are compared with what the model says the request means. Unknown options, "
        "missing, surplus and unacceptable arguments have to be refused with a message, without a prompt and without touching anything. "
        "Non-trivial: every spelling run.")

PRIMARY = "foobar primary"
PW = "stored secret"
CODE = ref.make_code(PW, b"s" * 16, ref.storage_key(PRIMARY, b"s" * 16)).split("\n")
FLAGS = {  # long -> short
    "set-primary": {"assume-yes": "y"},
    "add": {"no-lower": "w", "no-upper": "u", "no-digit": "d", "no-symbol": "s", "assume-yes": "y"},
    "add-stored": {"recovery": "c", "assume-yes": "y"},
    "remove": {}, "show": {"qrcode": "q"}, "notes": {"set": "s"},
    "list": {"show": "s", "recovery": "r", "verbose": "v"}, "alias": {"remove": "r"},
}
VALUED = {"add": {"revision": ("r", "1"), "length": ("l", "16")}, "add-stored": {"revision": ("r", "1")}, "remove": {"revision": ("r", "1")},
          "show": {"revision": ("r", "1")}, "notes": {"revision": ("r", "1")}}
OFF = {"no-lower": "lower", "no-upper": "upper", "no-digit": "number", "no-symbol": "symbol"}
NAMES = ["me", "", "a b", "-x", "--revision", "-", "--", "-r", "*", "=", "-r=3", "0", "\u00fcser", "add", "--help", "-1", "'q'", "e\u0301"]
SITES = ["a.com", "b.com", "-s.com", "--", "", "help", "x=y", "www.c.com", "list", "-c"]
REVS = ["1", "1", "", "2", "-1", "=", "x y", "--", "10", "01", "r", "-r", "=2", "\u00fc"]


def spell(rng, cmd, flags, values, pos):
    """Some way to write it."""
    items = []
    shorts = []
    for f in flags:
        s = FLAGS[cmd][f]
        if rng.random() < .5:
            items.append(["--" + f])
        else:
            shorts.append(s)
    rng.shuffle(shorts)
    tail = None
    vs = list(values.items())
    rng.shuffle(vs)
    for n, v in vs:
        s, default = VALUED[cmd][n]
        if v == default and rng.random() < .6:
            continue
        k = rng.randrange(6)
        dash = v.startswith("-")
        if k == 0 and not dash:
            items.append(["--" + n, v])
        elif k == 1 and not dash:
            items.append(["-" + s, v])
        elif k == 2 and v and not v.startswith("="):
            items.append(["-" + s + v])
        elif k == 3 and tail is None and shorts and not dash:
            tail = (s, v)
        elif k == 4:
            items.append(["-" + s + "=" + v])
        else:
            items.append(["--" + n + "=" + v])
    # flags in groups, maybe with a valued option at the end
    while shorts:
        n = rng.randint(1, len(shorts))
        g, shorts = shorts[:n], shorts[n:]
        if tail and not shorts:
            items.append(["-" + "".join(g) + tail[0], tail[1]] if rng.random() < .5 or not tail[1] or tail[1][0] == "=" else ["-" + "".join(g) + tail[0] + tail[1]])
            tail = None
        else:
            items.append(["-" + "".join(g)])
    rng.shuffle(items)
    # names: from the first that needs it on, behind --
    cut = next((i for i, x in enumerate(pos) if x.startswith("-") and x != "-"), len(pos))
    if cut == len(pos) and rng.random() < .8:
        sep = None
    else:
        sep = rng.randint(0, cut)
    front = list(pos if sep is None else pos[:sep])
    out = []
    while front or items:
        if items and (not front or rng.random() < .5):
            out += items.pop()
        else:
            out.append(front.pop(0))
    if sep is not None:
        out += ["--"] + list(pos[sep:])
    return [cmd] + out


def where(rng, path, d):
    """Ways to name the storage: words before the command, environment, cwd"""
    k = rng.randrange(6)
    env = {}
    rel = os.path.relpath(path, d)
    if k == 0:
        return ["-c", path], env
    if k == 1:
        return ["-c" + path], env
    if k == 2:
        return ["--storage", rel], env
    if k == 3:
        return ["--storage=" + path], env
    if k == 4:
        return ["-c=" + rel], env
    return [], {"XDG_CONFIG_HOME": os.path.dirname(os.path.dirname(path))}


class World:
    def __init__(self, rng, obs, d):
        self.rng, self.obs, self.d = rng, obs, d
        self.path = d + "/conf/PfP/storage.json"
        os.makedirs(os.path.dirname(self.path))
        self.m = Model(PRIMARY)
        sites, recs = {}, []
        for s in SITES[:4]:
            s = Model.norm(s)
            sites[s] = None
            for n in rng.sample(NAMES, 4):
                r = ref.norm_rev(rng.choice(REVS))
                stored = rng.random() < .7
                e = {"type": "stored", "password": "pw of %s %s %s" % (s, n, r)} if stored else {"type": "generated2", "length": 12, "classes": ("lower", "number")}
                e["notes"] = rng.choice(["", "notes of " + n])
                self.m.pw[(s, n, r)] = e
                rec = {"type": e["type"], "site": s, "name": n, "revision": r, "notes": e["notes"]}
                rec.update({"password": e["password"]} if stored else {"length": 12, "lower": True, "upper": False, "number": True, "symbol": False})
                recs.append(rec)
        sites["al.com"] = "a.com"
        self.m.alias["al.com"] = "a.com"
        text = ref.build_storage(PRIMARY, sites, recs)[0]
        with open(self.path, "w") as f:
            f.write(text)
        self.shell = None
        self.log = []
        self.slow = 0

    def run(self, words, dlg):
        """-> succeeded, output after the primary password, errors, prompts missing"""
        rng = self.rng
        if rng.random() < .12 and self.shell is None:
            pre, env = where(rng, self.path, self.d)
            self.log.append(pre + words)
            self.obs.count("run as commands")
            r = cli.run(None, words, [(P_PRIMARY, PRIMARY)] + dlg if dlg is not None else [], env=env, cwd=self.d, pre=pre)
            if r.panicked():
                self.fail("%r panics: %r" % (words, r.err[-300:]))
            return r.rc == 0, r.out[len(P_PRIMARY):] if r.out.startswith(P_PRIMARY) else r.out, r.err, r.unmet, r.out
        self.log.append(words)
        self.obs.count("run in a shell")
        if self.shell is None:
            self.shell = cli.Shell(self.path, PRIMARY, self.d + "/h", cwd=self.d)
            self.shell.cmd(["alias", "al.com"])
        out, err, unmet = self.shell.cmd(words, dlg or [])
        return not err, out, err, unmet, out

    def fail(self, what):
        raise Violation(what, log=[repr(x) for x in self.log[-20:]])

    def reopen(self):
        if self.shell:
            self.shell.close()
            self.shell = None

    def file(self):
        with open(self.path, "rb") as f:
            return f.read()

    def request(self):
        rng, m = self.rng, self.m
        cmd = rng.choice(["add", "add", "add", "add-stored", "add-stored", "remove", "show", "show", "notes", "notes", "list", "list", "alias", "alias"])
        before = self.file()
        if cmd == "list":
            return self.list(before)
        if cmd == "alias":
            return self.alias(before)
        known = rng.choice(sorted(m.pw)) if m.pw and rng.random() < (.75 if cmd not in ("add", "add-stored") else .3) else None
        site, name, rev = known or (rng.choice(SITES), rng.choice(NAMES), rng.choice(REVS))
        if rev == "" and rng.random() < .5:
            rev = "1"
        if m.resolve(site) == "a.com" and rng.random() < .3:
            site = "al.com"
        has = m.has(site, name, rev)
        ident = m.id(site, name, rev)
        flags, values, dlg, want = [], {"revision": rev}, [], None
        if cmd == "add":
            off = [f for f in OFF if rng.random() < .35]
            if len(off) == 4:
                off.pop()
            length = rng.choice([16, 16, 4, 24, 5, 10])
            values["length"] = str(length)
            flags = off + ["assume-yes"] * (has or rng.random() < .2)
            m.add(site, name, rev, length, tuple(n for n, _ in ref.CLASSES if n not in [OFF[f] for f in off]))
            want = b"Password added.\n"
        elif cmd == "add-stored":
            flags = ["assume-yes"] * (has or rng.random() < .2)
            if rng.random() < .25:
                flags.append("recovery")
                dlg = [(cli.P_CODE, x) for x in CODE]
                m.add_stored(site, name, PW, rev)
            else:
                v = gen.secret(rng)
                dlg = [(P_STORED, v)]
                m.add_stored(site, name, v, rev)
            want = b"Password added.\n"
        elif cmd == "remove":
            if m.remove(site, name, rev):
                want = b"Password removed.\n"
        elif cmd == "show":
            if has and m.pw[ident]["type"] != "stored":
                self.slow += 1
                if self.slow > 2:
                    has, known = False, None
                    return
            if rng.random() < .25:
                flags = ["qrcode"]
            if has:
                want = b"\n" if flags else b"Password retrieved.\n" + m.value(ident).encode() + b"\n"
        else:
            if rng.random() < .5:
                flags = ["set"]
            old = m.pw[ident]["notes"] if has else None
            if has:
                want = b"Notes for this password: " + old.encode() + b"\n" if old else b"Currently no notes are stored for this password.\n"
                if flags:
                    t = "new notes %d" % rng.randrange(1000)
                    dlg = [(P_NOTES, t)]
                    m.notes(site, name, rev, t)
                    want = b"Notes stored.\n"
        words = spell(rng, cmd, flags, values, [site, name])
        ok, out, err, unmet, _ = self.run(words, dlg if want else [])
        self.obs.case(tuple(words), True)
        if want and "recovery" in flags and self.shell is not None:
            ok = out.endswith(want)     # each line accepted is acknowledged on stderr
        what = "%r (%s of %r, %r, %r with %r%r)" % (words, cmd, site, name, rev, flags, values)
        if unmet is not None:
            self.fail("%s never asks %r: %r %r" % (what, unmet, out[-200:], err[-300:]))
        if want is None:
            if ok:
                self.fail("%s succeeds, nothing of that kind is there: %r" % (what, out[-200:]))
            if b"No such value" not in err:
                self.fail("%s: %r %r" % (what, out[-200:], err[-300:]))
        elif not ok or not out.endswith(want) or (cmd == "show" and flags and "\u2588".encode() not in out and b"\x1b" not in out and "\u2580".encode() not in out):
            self.fail("%s gives %r %r instead of %r" % (what, out[-300:], err[-300:], want))
        elif cmd == "show" and flags and len(m.value(ident)) > 5 and m.value(ident).encode() in out.replace(b"Password retrieved.", b""):
            self.fail("%s shows the password as text: %r" % (what, out[:300]))
        self.verify(what, before, want is None or cmd == "show" or cmd == "notes" and not flags)

    def verify(self, what, before, query):
        now = self.file()
        if query and now != before:
            self.fail("%s changes the storage" % what)
        if not query:
            x = self.m.diff(ref.read_storage(now.decode(), PRIMARY))
            if x:
                self.fail("%s does something else: %s" % (what, "; ".join(x[:3])))

    def list(self, before):
        rng, m = self.rng, self.m
        opts = [f for f in ("verbose", "recovery") if rng.random() < .4]
        domain, name = rng.choice(["*", "*"] + SITES + ["al.com", "*.com"]), rng.choice(["*", "*"] + NAMES)
        pos = [domain, name]
        if name == "*" and rng.random() < .7:
            pos.pop()
            if domain == "*" and rng.random() < .7:
                pos.pop()
        slow = [k for k in m.pw if m.pw[k]["type"] != "stored" and ref.wild(domain, k[0])]
        if len(slow) < 2 and rng.random() < .4:
            opts.append("show")
        words = spell(rng, "list", opts, {}, pos)
        ok, out, err, unmet, _ = self.run(words, [])
        self.obs.case(tuple(words), True)
        if not ok:
            self.fail("%r fails: %r" % (words, err[-300:]))
        def code(ident, text):
            return None if text.count("\n") >= 3 else "the recovery code is incomplete: %r" % text
        bad = compare_listing(m.listing(domain, name, "show" in opts, "verbose" in opts, {} if "recovery" in opts else None), out, code)
        if bad:
            self.fail("%r: %s" % (words, bad))
        x = self.m.diff(ref.read_storage(self.file().decode(), PRIMARY))
        if x:
            self.fail("%r changes the storage: %s" % (words, "; ".join(x[:3])))

    def alias(self, before):
        rng, m = self.rng, self.m
        k = rng.randrange(3)
        site = rng.choice(["al.com", "new.com", "", "-n.com", "other.com", "www.new.com"])
        if k == 0:
            words = spell(rng, "alias", ["remove"], {}, [site])
            ok, want = m.remove_alias(site), b"Alias removed.\n"
        elif k == 1:
            target = rng.choice(["a.com", "-s.com", "al.com"])
            words = spell(rng, "alias", [], {}, [site, target])
            ok, want = m.set_alias(site, target), b"Alias added.\n"
        else:
            words = spell(rng, "alias", [], {}, [site])
            t = m.alias.get(m.norm(site))
            ok, want = t is not None, b"is an alias for '%s'.\n" % (t or "").encode()
        good, out, err, unmet, _ = self.run(words, [])
        self.obs.case(tuple(words), True)
        if good != ok or ok and not out.endswith(want):
            self.fail("%r gives %r %r instead of %s" % (words, out[-200:], err[-300:], want if ok else "being refused"))
        self.verify(repr(words), before, not ok or k == 2)

    def refused(self):
        """What is not documented."""
        rng = self.rng
        before = self.file()
        cmd = rng.choice(["add", "add-stored", "remove", "show", "notes", "list", "alias"])
        pos = ["a.com", "me"]
        k = rng.randrange(7)
        if k == 0:
            words = [cmd] + pos
            words.insert(rng.randint(1, 3), rng.choice(["--nosuch", "-Z", "--show=1" if cmd == "list" else "--sets", "-yZ", "--assume", "-x", "--no-lowers", "--Revision=2", "-R2"]))
            if rng.random() < .4:
                option = rng.choice(sorted(FLAGS[cmd]) + ["revision"]) if FLAGS[cmd] else "revision"
                words = [cmd, "--" + option[:rng.randrange(1, len(option))] + ("=1" if option == "revision" else "")] + pos
        elif k == 1:
            words = [cmd] + pos + ["surplus"] + ["more"] * rng.randrange(2)
        elif k == 2:
            cmd = rng.choice(["add", "add-stored", "remove", "show", "notes"])
            words = [cmd] + pos[:rng.randrange(2)]
        elif k == 3:
            cmd = "add"
            words = [cmd, "-y", rng.choice(["-l", "--length"]), rng.choice(["3", "25", "0", "abc", "1e1", "100", "4.5", "", " 8", "99999999999999999999", "0x10", "-5", "\u0664",
                                                                  str(2 ** 64 + 16), str(2 ** 32 + 16), str(2 ** 16 + 16), str(2 ** 8 + 16), str(2 ** 63 + 16), str(-2 ** 64 + 16), str(10 ** 40),
                                                                  "0" * rng.randint(1, 30) + "25", "0" * rng.randint(1, 30) + "3", "0" * rng.randint(0, 30) + str(rng.randint(25, 10 ** 6)),
                                                                  "16.0", "1 6", "16 ", "16\n", "1_6", "1,6", "16px", "4-24", "\uff11\uff16", "NaN", "inf", "--", "+", "-16", "3.99", "24.5", "++16"])] + pos
            if words[3].startswith("-"):
                words[2:4] = ["--length=" + words[3]]
        elif k == 4:
            words = [rng.choice(["ad", "addd", "stored", "delete", "LIST", "-l", "add_stored", "addstored", "ls", "get", "Show", "remove-alias"])] + pos
            if rng.random() < .6:
                whole = rng.choice(["remove", "show", "list", "notes", "alias", "add-stored"])
                words[0] = whole[:rng.randrange(1 if whole != "add-stored" else 4, len(whole))]
                if whole == "list":
                    words = words[:2]
        elif k == 5:
            cmd = rng.choice(["add", "show"])
            words = [cmd] + pos + [rng.choice(["-r", "--revision"])]      # value missing
        elif k == 7:
            # no character may be used (told after unlocking only)
            pos[1] = rng.choice(["me", "new name"])
            words = spell(rng, "add", ["no-lower", "no-upper", "no-digit", "no-symbol"] + rng.choice([[], ["assume-yes"]]), rng.choice([{}, {"length": "8"}, {"revision": "2"}]), pos)
            ok, out, err, unmet, all_out = self.run(words, [])
            self.obs.case(tuple(words), True)
            if ok or not err.strip() or self.file() != before:
                self.fail("%r, which allows no characters, is accepted: %r %r" % (words, out[-300:], err[-300:]))
            return
        else:
            if cmd in ("list", "alias"):
                cmd = "show"
            f = rng.choice(["--qrcode=yes", "--qrcode=no"]) if cmd == "show" else rng.choice(["--set=1", "--set=false"]) if cmd == "notes" else "--assume-yes=no" if cmd.startswith("add") else "--revision"
            words = [cmd] + pos + [f]
        ok, out, err, unmet, all_out = self.run(words, None)
        self.obs.case(tuple(words), True)
        self.obs.count("refused")
        if ok or not err.strip():
            self.fail("%r is accepted: %r" % (words, out[-300:]))
        if b"rimary password" in all_out or b"to be stored" in all_out:
            self.fail("%r, which makes no sense, asks %r" % (words, all_out[-200:]))
        if self.file() != before:
            self.fail("%r is refused, but changes the storage" % (words,))


def spellings(rng, obs, n):
    with Scratch() as d:
        w = World(rng, obs, d)
        try:
            for _ in range(n):
                if rng.random() < .06:
                    w.reopen()
                if rng.random() < .2:
                    w.refused()
                else:
                    w.request()
        finally:
            if w.shell:
                w.shell.p.kill()


def setprimary(rng, obs):
    """set-primary and the storage option in every position and spelling."""
    with Scratch() as d:
        path = d + "/conf/PfP/storage.json"
        for i in range(6):
            pre, env = where(rng, path, d)
            yes = rng.random() < .6
            words = spell(rng, "set-primary", ["assume-yes"] * yes, {}, [])
            dlg = [(P_NEW, "primary %d" % i), (P_REPEAT, "primary %d" % i)]
            if not yes and os.path.exists(path):
                dlg.insert(0, (cli.P_RESET, "y"))
            r = cli.run(None, words, dlg, env=env, cwd=d, pre=pre)
            obs.case(tuple(pre + words), True)
            if r.unmet or r.rc != 0 or (yes and cli.P_RESET in r.out):
                raise Violation("%r %r: %r" % (pre, env, r))
            try:
                p = ref.read_storage(open(path).read(), "primary %d" % i)
            except (OSError, ref.FormatError) as e:
                raise Violation("%r %r reports success, but %s has not the new primary password: %s" % (pre + words, env, path, e))
            left = [x for x in tree.snapshot(d) if x.rstrip("/") not in ("conf", "conf/PfP", "conf/PfP/storage.json", ".", "")]
            if left:
                raise Violation("%r %r creates %r" % (pre + words, env, left))
            # a wrong way to name it changes nothing
            before = open(path).read()
            bad = rng.choice([["-c"], ["--storage"], ["--Storage", path], ["-C", path], ["--store=" + path], ["-c", path, "-c", path]])
            r = cli.run(None, ["set-primary", "-y"] if bad not in (["-c"], ["--storage"]) else [], [], cwd=d, pre=bad)
            if r.rc == 0 or not r.err or open(path).read() != before:
                raise Violation("%r: %r" % (bad, r))
            obs.count("refused")


HELP = {"set-primary": ["-y", "--assume-yes"],
        "add": ["DOMAIN", "NAME", "-r", "--revision", "-l", "--length", "-w", "--no-lower", "-u", "--no-upper", "-d", "--no-digit", "-s", "--no-symbol", "-y", "--assume-yes"],
        "add-stored": ["DOMAIN", "NAME", "-r", "--revision", "-c", "--recovery", "-y", "--assume-yes"], "remove": ["DOMAIN", "NAME", "-r", "--revision"],
        "show": ["DOMAIN", "NAME", "-r", "--revision", "-q", "--qrcode"], "notes": ["DOMAIN", "NAME", "-r", "--revision", "-s", "--set"],
        "list": ["DOMAIN", "NAME", "-s", "--show", "-r", "--recovery", "-v", "--verbose"], "alias": ["DOMAIN", "ALIAS_TARGET", "-r", "--remove"],
        "shell": ["-s", "--history"]}


def helps(rng, obs):
    """Help names every command and option, works without a storage, and changes nothing."""
    with Scratch() as d:
        jobs = [(["--help"], list(HELP) + ["--storage", "-c"]), (["-h"], list(HELP)), (["help"], list(HELP)), (["--version"], []), (["-V"], [])]
        for c in HELP:
            for w in ([c, "--help"], [c, "-h"], ["help", c]):
                jobs.append((w, HELP[c]))
        for w, need in jobs:
            r = cli.run(None, w, [], cwd=d)
            if r.rc != 0 or r.panicked() or [x for x in need if x.encode() not in r.out] or not r.out:
                raise Violation("%r: missing %r in %r" % (w, [x for x in need if x.encode() not in r.out], r))
            if os.listdir(d):
                raise Violation("%r creates %r" % (w, os.listdir(d)))
            obs.case(tuple(w), True)
        cli.init_storage(d + "/s", PRIMARY)
        with cli.Shell(d + "/s", PRIMARY, d + "/h", cwd=d) as sh:
            for c in ["add", "add-stored", "remove", "show", "notes", "list", "alias"]:
                out, err, _ = sh.cmd_raw("help " + c)
                both = out + err
                if [x for x in HELP[c] if x.encode() not in both]:
                    raise Violation("help %s in a shell leaves out %r: %r" % (c, [x for x in HELP[c] if x.encode() not in both], both))
                obs.case(("shell help", c), True)
            out, err, _ = sh.cmd_raw("help")
            both = out + err
            if [x for x in ["add", "add-stored", "remove", "show", "notes", "list", "alias", "exit", "lock"] if x.encode() not in both]:
                raise Violation("help in a shell leaves out a command: %r" % both)


def main():
    common.build_cli()
    r = Runner("C22", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(spellings, [(170,)] * (32 * m), "spellings")
    r.run(setprimary, [()] * (8 * m), "setprimary")
    r.run(helps, [()], "help")
    return finish(r, "exploration", RULE, ["the commands, options and defaults are those --help documents"], 1000)
