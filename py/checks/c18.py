"""C18: the program shows the secrets it was asked for and no others: not while they are typed, not in messages about
mistakes, not along with other things."""
import base64, copy, json, os, random, re, resource, signal
import cli, codes, common, gen, ref, term
from cli import P_CODE, P_NEW, P_NOTES, P_OVERWRITE, P_PRIMARY, P_REPEAT, P_STORED
from common import Inconclusive, Runner, Scratch, finish, Violation
from model import Model

RULE = ("random commands, right and wrong ones, on storages full of unique secrets (also with entries which do not read or "
        "decrypt), in processes, shells and on terminals; everything that reaches the output, the error output or the screen "
        "is searched for every secret there is (typed, stored, generated, keys; plain, as JSON, Base64, hexadecimal) and all "
        "but those the command is there to show are violations. On terminals echoing has to be off at password prompts and "
        "on again afterwards, also when commands are interrupted or given up. Non-trivial: a command run while secrets existed.")


def forms(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    out = [b, base64.b64encode(b).rstrip(b"="), base64.urlsafe_b64encode(b).rstrip(b"="), b.hex().encode(), b.hex().upper().encode(), b[::-1]]
    try:
        t = b.decode("utf-8")
        out += [json.dumps(t)[1:-1].encode(), json.dumps(t, ensure_ascii=False)[1:-1].encode()]
    except UnicodeDecodeError:
        pass
    out.append(repr(list(b)).encode())
    # short pieces turn up by chance, unless they look like nothing else
    return [f for f in dict.fromkeys(out) if len(f) >= 8 or f == b and len(f) > 4 and set(f) <= set(RARE)]


RARE = b"QXZJK0246789"      # not next to each other in anything the program prints


def short(rng, n):
    while True:
        t = "".join(chr(rng.choice(RARE)) for _ in range(n))
        if any(c.isdigit() for c in t) and any(c.isalpha() for c in t):
            return t


class World:
    def __init__(self, rng, obs, d):
        self.rng, self.obs, self.d, self.path = rng, obs, d, d + "/s"
        self.primary = "pRiM-" + gen.token(rng, 10)
        self.m = Model(self.primary)
        self.secrets = {}           # label -> bytes or text
        self.secrets["the primary password"] = self.primary
        self.n = 0
        self.sites = ["a.com", "b.com", "c.com"]

    def new(self, label):
        rng = self.rng
        self.n += 1
        t = "s" + gen.token(rng, rng.choice([8, 12, 30])) + rng.choice(["", "", " x", "\"q", "\\b", "ä日", "%s{}", "<&>'"]) + rng.choice(["", "z9"])
        self.secrets["%s %d" % (label, self.n)] = t
        return t

    def created(self):
        """Storage with some content; sometimes with entries nobody can read."""
        rng, m = self.rng, self.m
        sites, pws = {}, []
        for s in self.sites[:2]:
            m.known.add(s)
            sites[s] = None
            for n in ("me", "you"):
                for r in ("1", "2"):
                    if rng.random() < .4:
                        continue
                    e = {"site": s, "name": n, "revision": ref.norm_rev(r)}
                    if rng.random() < .5:
                        m.add_stored(s, n, self.new("stored password"), r)
                        e.update(type="stored", password=m.pw[m.id(s, n, r)]["password"])
                    else:
                        m.add(s, n, r)
                        self.remember(m.id(s, n, r))
                        e.update(type="generated2", length=16, lower=True, upper=True, number=True, symbol=True)
                    if rng.random() < .5:
                        m.notes(s, n, r, self.new("notes"))
                        e["notes"] = m.pw[m.id(s, n, r)]["notes"]
                    pws.append(e)
        if rng.random() < .6:
            m.set_alias("al.com", "a.com")
            sites["al.com"] = "a.com"
        text, hs, key, salt = ref.build_storage(self.primary, sites, pws, style=random.Random(rng.random()))
        if rng.random() < .5:
            text = self.damage(text, hs, key)
        open(self.path, "w").write(text)
        self.secrets["the encryption key"] = key
        self.secrets["the HMAC secret"] = hs

    def damage(self, text, hs, key):
        rng = self.rng
        doc = json.loads(text)
        for n in ("bad1", "bad2", "bad3"):
            x, y = self.new("password in a damaged entry"), self.new("notes in a damaged entry")
            o = {"type": "stored", "site": "a.com", "name": n, "revision": "", "password": x, "notes": y}
            k = rng.choice([1, 2, 3, 4, 5, 8, 9, 10, 11])   # what is wrong may be quoted, so it is not the secret itself
            plain = None
            if k == 1:
                o["password"] = [x]
            elif k == 2:
                o["password"] = {x: y}
            elif k == 3:
                del o["type"]
            elif k == 4:
                o["notes"] = {"a": y}
            elif k == 5:
                plain = json.dumps(o)[:-3]
            elif k == 8:
                o[x] = o.pop("password")
            elif k == 9:
                plain = json.dumps(o).replace(x, x + "\n")
            elif k == 10:
                o = [o]
            else:
                plain = json.dumps(o) + x
            raw = (plain or json.dumps(o)).encode()
            if k == 11 and rng.random() < .5:
                raw = raw[:-4] + b"\xff" + raw[-4:]
            v = ref.enc(key, raw)
            if rng.random() < .15:
                v = v[:-6] + "AAAA" + v[-2:]
            doc["data"][ref.password_key(hs, "a.com", n, "1")] = v
            self.obs.count("damaged entries")
        return json.dumps(doc)

    def remember(self, ident):
        self.n += 1
        self.secrets["generated password %d" % self.n] = self.m.value(ident)

    def command(self):
        """-> words, dialogue, texts which may be shown."""
        rng, m = self.rng, self.m
        known = list(m.pw)
        if known and rng.random() < .7:
            s, n, r = rng.choice(known)
            r = r or "1"
        else:
            s, n, r = rng.choice(self.sites + ["al.com", "nosuch.com"]), rng.choice(["me", "you", "bad1", "bad2", "bad3"]), rng.choice(["1", "2"])
        if rng.random() < .2:
            s = "www." + s
        R = ["-r", r] if r != "1" else []
        e = m.pw.get(m.id(s, n, r))
        k = rng.randrange(25)
        if k < 2:
            if e:
                a = rng.choice("yn")
                if a == "y":
                    m.add(s, n, r)
                    self.remember(m.id(s, n, r))
                return ["add"] + R + [s, n], [(P_OVERWRITE, a)], []
            m.add(s, n, r)
            self.remember(m.id(s, n, r))
            return ["add"] + R + ["-y", s, n], [], []
        if k < 5:
            t = self.new("stored password")
            if e and rng.random() < .5:
                return ["add-stored"] + R + [s, n], [(P_OVERWRITE, "n")], []
            m.add_stored(s, n, t, r)
            return ["add-stored", "-y"] + R + [s, n], [(P_STORED, t)], []
        if k < 8:      # recovery codes, with mistakes
            t = self.new("password in a recovery code")
            salt = os.urandom(16)
            ck = ref.storage_key(self.primary if rng.random() < .7 else self.primary + "x", salt)
            self.n += 1
            self.secrets["key of recovery code %d" % self.n] = ck
            lines = ref.make_code(t, salt, ck, version=rng.choice([1, 1, 1, 2])).split("\n")
            for _ in range(rng.choice([0, 1, 2])):
                lines.insert(rng.randrange(len(lines)), rng.choice(["abcd-efgh-jklm:nopq-rstu-vwxy", "??", lines[0]]))
            if rng.random() < .2:
                lines[-1] += "ABCD"
            if rng.random() < .2:
                lines = lines[:-1] + [""]
            dlg, _, outcome = codes.simulate(lines, [rng.choice("yn")], self.primary)
            if outcome[0] == "open":
                dlg, outcome = dlg + [(P_CODE, "")], ("abort",)
            if outcome[0] == "value":
                m.add_stored(s, n, outcome[1], r)
            return ["add-stored", "-c", "-y"] + R + [s, n], dlg, []
        if k < 11:
            t = self.new("notes")
            if not e:
                return ["notes", "-s"] + R + [s, n], [], []
            old = e["notes"]
            m.notes(s, n, r, t)
            return ["notes", "-s"] + R + [s, n], [(P_NOTES, t)], [old]
        if k < 13:
            return ["notes"] + R + [s, n], [], [e["notes"]] if e else []
        if k < 16:
            q = rng.random() < .2
            return ["show"] + (["-q"] if q else []) + R + [s, n], [], [m.value(m.id(s, n, r))] if e and not q else []
        if k < 21:
            fl = [f for f in ("-s", "-v", "-r") if rng.random() < .4]
            pat = rng.choice([[], [], ["*"], [s], ["a*"], ["*", n], [s, n], ["?.com", "y*"]])
            dom, name = (pat + ["*", "*"][len(pat):])[:2]
            may = []
            for i, x in m.pw.items():
                al = [a for a, t in m.alias.items() if t == i[0]]
                if any(ref.wild(dom, y) for y in [i[0]] + al) and ref.wild(name, i[1]):
                    if "-s" in fl:
                        may.append(m.value(i))
                    if "-v" in fl:
                        may.append(x["notes"])
            # of entries which cannot be read nobody knows what they should show; readable ones among them may be
            if ref.wild(name, "bad1") or ref.wild(name, "bad2") or ref.wild(name, "bad3"):
                for label, t in self.secrets.items():
                    if "-s" in fl and label.startswith("password in a damaged") or "-v" in fl and label.startswith("notes in a damaged"):
                        may.append(t)
            return ["list"] + fl + pat, [], may
        if k == 21:
            t = rng.choice(self.sites)
            m.set_alias("al.com", t)
            return ["alias", "al.com", t], [], []
        if k == 22:
            return ["alias"] + rng.choice([[], ["-r"]]) + ["nosuch.com"], [], []
        if k == 23:
            m.remove(s, n, r)
            return ["remove"] + R + [s, n], [], []
        return [rng.choice(["shwo", "list", "add"]), "--nosuch", s, n, "y", "z"], [], []

    def check(self, what, out, may, words):
        """Searches what was shown for secrets."""
        shown = b"\n".join(x if isinstance(x, bytes) else x.encode("utf-8") for x in may if x)
        rest = out
        for label, t in self.secrets.items():
            for f in forms(t):
                if f in out:
                    raw = t.encode("utf-8") if isinstance(t, str) else t
                    if f in shown or raw in shown and f == raw:
                        self.obs.count("shown on request")
                        continue
                    raise Violation("%s shows %s (%r as %r)" % (what, label, t, f[:80]), words=repr(words), output=repr(out[-3000:]))
        self.obs.count("bytes of output searched", len(out))
        self.obs.count("secrets searched for", len(self.secrets))


def unlocking(w):
    rng, dlg = w.rng, []
    for _ in range(rng.choice([0, 0, 1])):
        x = rng.choice(["wrong-" + gen.token(rng), w.primary + "x", short(rng, 5), short(rng, 6)])
        w.n += 1
        w.secrets["wrong primary password %d" % w.n] = x
        dlg.append((P_PRIMARY, x))
    return dlg + [(P_PRIMARY, w.primary)]


def processes(rng, obs, n):
    with Scratch() as d:
        w = World(rng, obs, d)
        w.created()
        for _ in range(n):
            words, dlg, may = w.command()
            dlg = unlocking(w) + dlg
            r = cli.run(w.path, words, dlg, cwd=d)
            w.check("%r given %r" % (words, [x for _, x in dlg]), r.out + b"\n" + r.err, may, words)
            obs.case((words, dlg), True, {"words": words, "output": repr((r.out + r.err)[-160:])})
            obs.count("process: " + words[0])


def mistakes(rng, obs, n):
    """New primary passwords of every kind of unsuitability."""
    with Scratch() as d:
        for i in range(n):
            w = World(rng, obs, d)
            path = w.path + str(i)
            k = rng.choice(["short", "short", "mismatch", "mismatch", "short repeated", "good", "wide"])
            x = {"short": short(rng, 5), "short repeated": short(rng, 5), "wide": "\u65e5\u00e4"}.get(k) or rng.choice([short(rng, 6), "nEw-" + gen.token(rng)])
            y = {"mismatch": rng.choice([short(rng, 5), short(rng, 7), x + "q", x[:-1]])}.get(k, x)
            w.secrets["the new primary password"] = x
            if y != x:
                w.secrets["its repetition"] = y
            dlg = [(P_NEW, x), (P_REPEAT, y)]
            if rng.random() < .3:
                with term.Term(["-c", path, "set-primary"], cwd=d) as t:
                    typed(w, t, dlg)
                    t.wait()
                    out = t.screen
            else:
                r = cli.run(path, ["set-primary"], dlg, cwd=d)
                out = r.out + b"\n" + r.err
            if k == "wide" and "\u65e5".encode() in out:
                raise Violation("set-primary shows the new primary password %r: %r" % (x, out))
            w.check("set-primary given %r and %r" % (x, y), out, [], ["set-primary"])
            obs.case(("set-primary", x, y), True)
            obs.count("new primary password: " + k)


def shells(rng, obs, n):
    with Scratch() as d:
        w = World(rng, obs, d)
        w.created()
        with cli.Shell(w.path, w.primary, d + "/h", cwd=d) as sh:
            locked = True
            for _ in range(n):
                words, dlg, may = w.command()
                if locked and words[0] not in ("shwo",) and "--nosuch" not in words:
                    dlg = unlocking(w) + dlg
                    locked = False
                out, err, unmet = sh.cmd_raw(" ".join(cli.shell_quote(x) for x in words), dlg)
                w.check("shell: %r given %r" % (words, [x for _, x in dlg]), out + b"\n" + err, may, words)
                obs.case((words, dlg), True)
                obs.count("shell: " + words[0])
                if rng.random() < .1:
                    o, e, _ = sh.cmd_raw("lock")
                    w.check("lock", o + e, [], ["lock"])
                    locked = True
                if rng.random() < .1:
                    o, e, _ = sh.cmd_raw(rng.choice(["help", "help show", "'unbalanced", "show", "nosuch a b"]))
                    w.check("mistaken line", o + e, [], ["?"])
            sh.close()


def typed(w, t, dlg):
    left, echoed = term.dialogue(t, dlg)
    if echoed:
        raise Violation("what is typed at %r is echoed to the terminal" % echoed, args=repr(t.args))
    w.obs.count("hidden prompts", sum(p in term.HIDDEN for p, _ in dlg[:len(dlg) - len(left)]))
    return left


def terminals(rng, obs, n):
    """Commands on a terminal."""
    with Scratch() as d:
        w = World(rng, obs, d)
        new = "nEw-" + gen.token(rng, 12)
        w.secrets["the new primary password"] = new
        for again in range(2):
            dlg = [(P_NEW, new), (P_REPEAT, new if again else new + "q")]
            with term.Term(["-c", w.path, "set-primary"], cwd=d) as t:
                typed(w, t, dlg)
                t.wait()
                w.check("set-primary on a terminal", t.screen, [], ["set-primary"])
                if not t.echo():
                    raise Violation("set-primary leaves the terminal without echo")
        w.created()
        for _ in range(n):
            words, dlg, may = w.command()
            if any("\t" in x for _, x in dlg):
                continue
            dlg = unlocking(w) + dlg
            may = list(may) + [x for p, x in dlg if p not in term.HIDDEN]
            with term.Term(["-c", w.path] + words, cwd=d) as t:
                typed(w, t, dlg)
                t.wait()
                w.check("terminal: %r given %r" % (words, [x for _, x in dlg]), t.screen, may, words)
                if not t.echo() or not t.canonical():
                    raise Violation("%r leaves the terminal without echo" % words)
            obs.case(("tty", words, dlg), True)
            obs.count("terminal: " + words[0])


def terminal_shell(rng, obs, n):
    """A shell on a terminal, with line editing."""
    with Scratch() as d:
        w = World(rng, obs, d)
        w.created()
        with term.Term(["-c", w.path, "shell", "-s", d + "/h"], cwd=d) as t:
            may = []
            locked = True
            mark = 0
            for i in range(n):
                words, dlg, x = w.command()
                if "--nosuch" in words or any("\t" in y for _, y in dlg):
                    continue
                if locked:
                    dlg = unlocking(w) + dlg
                    locked = False
                may = list(x) + [y for p, y in dlg if p not in term.HIDDEN]
                if not t.expect(b"pfp> "):
                    raise Inconclusive("the shell on the terminal ended: %r" % t.screen[-300:])
                start = t.pos
                t.type(" ".join(cli.shell_quote(y) for y in words) + "\r")
                typed(w, t, dlg)
                # the next prompt comes when the command is done
                p = t.pos
                if not t.expect(b"pfp> "):
                    raise Inconclusive("the shell on the terminal ended: %r" % t.screen[-300:])
                t.pos = p
                w.check("shell on a terminal: %r given %r" % (words, [y for _, y in dlg]), t.screen[start:], may, words)
                obs.case(("tty shell", words, dlg), True)
                obs.count("terminal shell: " + words[0])
            t.expect(b"pfp> ")
            t.type("exit\r")
            t.wait()
            if not t.echo() or not t.canonical():
                raise Violation("the shell leaves the terminal without echo")


KEYS = {"^C": b"\x03", "^\\": b"\x1c"}


def stop(rng, t):
    """The user or the system ends the program."""
    how = rng.choice(["^C", "^C", "^\\", "SIGTERM", "SIGHUP"])
    if how in KEYS:
        t.type(KEYS[how])
    else:
        os.kill(t.p.pid, getattr(signal, how))
    return how


def interrupted(rng, obs, n):
    """Commands which are stopped while they wait for an answer, by themselves and in a shell."""
    with Scratch() as d:
        w = World(rng, obs, d)
        w.created()
        for _ in range(n):
            before = copy.deepcopy(w.m)
            words, dlg, may = w.command()
            w.m = before
            dlg = unlocking(w) + dlg
            if "--nosuch" in words or any("\t" in x for _, x in dlg):
                continue
            k = rng.choice([0, len(dlg) - 1, rng.randrange(len(dlg))])
            prompt, reply = dlg[k]
            part = reply[:rng.randint(0, len(reply))]
            may = list(may) + [x for p, x in dlg if p not in term.HIDDEN]
            shell = rng.random() < .4
            with term.Term(["-c", w.path] + (["shell", "-s", d + "/h"] if shell else words), cwd=d, prepare=no_core) as t:
                if shell:
                    t.expect(b"pfp> ")
                    if rng.random() < .5:
                        t.type("show a.com m\x03")       # not a command yet
                        if not t.expect(b"pfp> "):
                            raise Violation("a shell ends at ^C while a command is typed")
                        obs.count("^C while typing a command")
                    t.type(" ".join(cli.shell_quote(y) for y in words) + "\r")
                if typed(w, t, dlg[:k]) or not t.expect(prompt):
                    obs.count("ended before it could be stopped")
                    if shell:
                        t.type("exit\r")
                    t.wait()
                    continue
                if prompt in term.HIDDEN and not t.hidden():
                    raise Violation("what is typed at %r is echoed to the terminal" % prompt, args=repr(t.args))
                t.type(part)
                how = stop(rng, t)
                if shell and "SIG" not in how:
                    t.pump(.05)
                    t.type("\n")                   # should it be still there
                    t.type("exit\r")
                t.wait()
                what = "%s at %r of %r given %r%s" % (how, prompt, words, [x for _, x in dlg[:k]] + [part], " in a shell" if shell else "")
                w.check(what, t.screen, may, words)
                # at the hidden prompts this is the listed finding
                if prompt not in term.HIDDEN and (not t.echo() or not t.canonical()):
                    raise Violation(what + " leaves the terminal without echo")
                obs.count("stopped by %s at %s prompts" % (how, "hidden" if prompt in term.HIDDEN else "open"))
                obs.case(("stopped", how, shell, words, dlg, k), True)


def given_up(rng, obs):
    """The end of input at every hidden prompt."""
    with Scratch() as d:
        w = World(rng, obs, d)
        w.created()
        for words, dlg, last in ((["list"], [], P_PRIMARY), (["list"], [(P_PRIMARY, "wrong one")], P_PRIMARY), (["set-primary", "-y"], [], P_NEW),
                                 (["set-primary", "-y"], [(P_NEW, w.primary)], P_REPEAT),
                                 (["add-stored", "-y", "a.com", "x"], [(P_PRIMARY, w.primary)], P_STORED)):
            with term.Term(["-c", w.path] + words, cwd=d) as t:
                typed(w, t, dlg)
                t.expect(last)
                t.hidden()
                t.type("\x04")
                t.wait()
                w.check("%r after the end of input" % words, t.screen, [], words)
                if not t.echo() or not t.canonical():
                    raise Violation("%r leaves the terminal without echo after the end of input" % words)
            obs.case(("given up", words, len(dlg)), True)


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def listed(rng, obs):
    """The listed finding, shown on purpose."""
    with Scratch() as d:
        with term.Term(["-c", d + "/s", "set-primary"], cwd=d) as t:
            t.expect(P_NEW)
            t.hidden()
            t.type("\x03")
            t.wait()
            obs.case("listed", True)
            if not t.echo():
                raise Violation("a password prompt interrupted with ^C leaves the terminal without echo", signature="no-echo-after-interrupt")


def main():
    common.build_cli()
    r = Runner("C18", 900 if common.THOROUGH else 100)
    m = 30 if common.THOROUGH else 1
    r.run(processes, [(10,)] * (16 * m), "processes")
    r.run(mistakes, [(8,)] * (16 * m), "mistakes")
    r.run(shells, [(45,)] * (16 * m), "shells")
    r.run(terminals, [(6,)] * (12 * m), "terminals")
    r.run(listed, [()], "listed finding")
    r.run(interrupted, [(12,)] * (12 * m), "interrupted")
    r.run(given_up, [()] * m, "given up")
    r.run(terminal_shell, [(12,)] * (12 * m), "shells on terminals")
    return finish(r, "exploration", RULE,
                  ["a report about an entry with malformed content may quote the value that is out of place",
                   "command lines, which a user types himself, hold no secrets",
                   "input that is not a password prompt's (notes, recovery codes, answers) is echoed by the terminal and may be"], 400)
