"""C16: secrets do not stay behind in the heap: blocks that held one are wiped before they are given back, none is left
when the program ends or when the shell is locked or idle."""
import os, shutil
import cli, codes, common, gen, heap, ref, term
from cli import P_CODE, P_NEW, P_NOTES, P_OVERWRITE, P_PRIMARY, P_REPEAT, P_STORED
from common import Inconclusive, Runner, Scratch, finish, Violation

RULE = ("random commands of all kinds (succeeding, failing, declined, given up) in processes of their own, in shells and on "
        "terminals, under a heap monitor which searches every block for unique secrets (primary, stored and generated "
        "passwords, notes, encryption key, HMAC secret; as text, as JSON text, in Base64, also pieces of them) when it is "
        "given back or moved, at the end, and in the shell while it waits; a text nobody wipes shows that it sees them. "
        "Non-trivial: a command which handled a secret.")

ESC = ['"', "\\", "\t"]


class World:
    def __init__(self, rng, obs, d):
        self.rng, self.obs, self.d = rng, obs, d
        self.path = d + "/s"
        self.primary = "pRiM-" + gen.token(rng, rng.choice([10, 12, 60]))
        self.entries = {}
        self.canary = "canary" + gen.token(rng, 14)
        self.mon = heap.Monitor(d, self.canary)
        self.mon.secret("primary", self.primary)
        self.esc = set()
        self.n = 0
        self.sites = ["a.com", "b.com", self.canary + ".com"]

    def text(self, label, esc=None):
        """A new unique secret."""
        rng = self.rng
        k = rng.randrange(8)
        t = "s-" + gen.token(rng, rng.choice([12, 20, 24, 40, 100]))
        if k == 0:
            t = t + "ä日本😀" + gen.token(rng, 12)
        elif k == 1:
            t = "".join(gen.token(rng, 40) for _ in range(rng.choice([8, 26, 27, 52, 80])))
        elif k == 2:
            t = t + " " + gen.token(rng, 10) + "'/<&>"
        self.n += 1
        label = "%s %d" % (label, self.n)
        if esc if esc is not None else rng.random() < .1:
            i = rng.randrange(len(t))
            t = t[:i] + rng.choice(ESC) + t[i:] + "x"
            self.esc.add(label)
        self.mon.secret(label, t)
        return t

    def generated(self, site, name, rev, length, classes):
        if length >= 12:
            self.n += 1
            self.mon.secret("generated %d" % self.n, ref.generate(self.primary, site, name, rev, length, classes))

    def keys(self):
        p = ref.read_storage(open(self.path).read(), self.primary)
        self.mon.binary("key", p.key)
        self.mon.binary("hmac", p.hmac_secret)

    def judge(self, what, allow_live=(), terminal=False):
        """Reads the monitor's log; violation unless everything found is expected."""
        found, stats, scans = self.mon.read()
        for f in found:
            how, label, needle, size, frames = f
            if label == "canary":
                self.obs.count("canary seen")
                continue
            if how == "live" and label in allow_live:
                self.obs.count("live while unlocked: " + label)
                continue
            if label in self.esc and heap.from_json_reader(f):
                self.obs.count("listed: JSON reader's buffer")
                continue
            if terminal and heap.from_terminal_prompt(f):
                self.obs.count("listed: terminal prompt's buffer")
                continue
            raise Violation("%s: %s is left in a heap block of %d bytes (%s): %r" % (what, label, size, how, frames[:6]),
                            needle=repr(needle), frames=frames[:20])
        for s in stats:
            self.obs.count("blocks checked", s["free"] + s["realloc"] + s["live"])
            self.obs.count("megabytes checked", s["bytes"] >> 20)
            self.obs.count("processes watched")
        self.obs.count("idle scans", scans)
        return found, stats

    def command(self):
        """-> words, dialogue after unlocking."""
        rng, E = self.rng, self.entries
        k = rng.randrange(22)
        known = [i for i in E]
        ident = rng.choice(known) if known and rng.random() < .7 else (rng.choice(self.sites), rng.choice(["me", "you"]), rng.choice(["1", "2"]))
        s, n, r = ident
        R = ["-r", r] if r != "1" else []
        there = ident in E
        if k < 4:
            length, c = rng.choice([12, 16, 24]), rng.choice([("lower", "upper", "number", "symbol"), ("lower", "number")])
            w = ["add"] + R + ["-l", str(length)] + (["-wd"] if len(c) == 2 else []) + [s, n]
            dlg = []
            if there:
                a = rng.choice(["y", "n"])
                dlg = [(P_OVERWRITE, a)]
                if a == "n":
                    return w, dlg
            E[ident] = "generated"
            self.generated(s, n, r, length, c)
            return w, dlg
        if k < 8:
            w = ["add-stored"] + R + ["-y", s, n]
            t = self.text("stored password")
            E[ident] = "stored"
            return w, [(P_STORED, t)]
        if k == 8:
            self.obs.count("dialogue: code")
            t = self.text("password from a code")
            salt = bytes(rng.randrange(256) for _ in range(16))
            code = ref.make_code(t, salt, ref.storage_key(self.primary, salt))
            self.mon.binary("key of a code", ref.storage_key(self.primary, salt))
            lines = code.split("\n")
            if rng.random() < .5:
                lines.insert(rng.randrange(len(lines)), "zzzz-zzzz" * 3)
            if rng.random() < .2:
                lines = lines[:1] + [""]
            dlg, _, outcome = codes.simulate(lines, [], self.primary)
            if outcome[0] == "value":
                E[ident] = "stored"
            return ["add-stored"] + R + ["-c", "-y", s, n], dlg
        if k == 9:
            salt = bytes(rng.randrange(256) for _ in range(16))
            code = ref.make_code("whatever", salt, os.urandom(32))
            return ["add-stored"] + R + ["-c", "-y", s, n], codes.simulate([code.replace("\n", " ")], [], self.primary)[0]
        if k < 13:
            w = ["notes", "-s"] + R + [s, n]
            return w, [(P_NOTES, self.text("notes"))] if there else []
        if k == 13:
            return ["notes"] + R + [s, n], []
        if k < 16:
            return ["show"] + rng.choice([[], ["-q"]]) + R + [s, n], []
        if k < 19:
            return ["list"] + rng.choice([["-r"], ["-s"], ["-v"], ["-svr"], []]) + rng.choice([[], [s], ["*", "y*"]]), []
        if k == 19:
            return ["alias", rng.choice(["al.com", s]), rng.choice(self.sites)], []
        if k == 20:
            return ["alias"] + rng.choice([[], ["-r"]]) + ["al.com"], []
        E.pop(ident, None)
        return ["remove"] + R + [s, n], []


def create(w):
    """set-primary, first with the mistakes one can make."""
    rng = w.rng
    tries = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if rng.random() < .3:
            tries.append([(P_NEW, "abcde")])
        else:
            a, b = "mis-" + gen.token(rng), "mat-" + gen.token(rng)
            w.mon.secret("rejected new password", a)
            w.mon.secret("rejected repetition", b)
            tries.append([(P_NEW, a), (P_REPEAT, b)])
    tries.append([(P_NEW, w.primary), (P_REPEAT, w.primary)])
    for dlg in tries:
        r = cli.run(w.path, ["set-primary"], dlg, cwd=w.d, env=w.mon.env())
        w.judge("set-primary given %r" % (dlg,))
    if r.rc != 0 or r.unmet:
        raise Violation("set-primary given %r: %r" % (dlg, r))
    w.keys()


def unlocking(w):
    dlg = []
    rng = w.rng
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        x = "wrong-" + gen.token(rng)
        w.mon.secret("wrong primary password", x)
        dlg.append((P_PRIMARY, x))
    return dlg + [(P_PRIMARY, w.primary)]


def processes(rng, obs, n):
    """Every command in a process of its own."""
    with Scratch() as d:
        w = World(rng, obs, d)
        create(w)
        for _ in range(n):
            words, dlg = w.command()
            dlg = unlocking(w) + dlg
            cut = None
            if rng.random() < .12:     # the input ends
                cut = rng.randrange(len(dlg) + 1)
                dlg = dlg[:cut]
            if len(w.mon.needles) > 140:
                break
            r = cli.run(w.path, words, dlg, cwd=d, env=w.mon.env())
            if r.panicked():
                raise Inconclusive("crash: %r" % r)
            if cut is not None:
                w.entries.clear()
                p = ref.read_storage(open(w.path).read(), w.primary)
                w.entries.update({(a, b, c or "1"): x["type"] for (a, b, c), x in p.passwords.items()})
            found, stats = w.judge("%r given %r" % (words, [x for _, x in dlg]))
            if not stats:
                raise Inconclusive("the monitor did not report: %r" % r)
            obs.case((words, dlg), True, {"words": words, "given": [str(x)[:40] for _, x in dlg]})
            obs.count("process: " + words[0])


def shells(rng, obs, n):
    """In a shell, looking at the blocks alive while it waits."""
    with Scratch() as d:
        w = World(rng, obs, d)
        create(w)
        # what will be typed has to be known to the monitor at the start
        script = []
        while len(script) < n and len(w.mon.needles) < 120:
            script.append(w.command())
        unlock = [unlocking(w) for _ in range(3)]
        sh = cli.Shell(w.path, w.primary, d + "/h", cwd=d, env=w.mon.env())
        with sh:
            w.judge("shell start")
            locked = True
            for words, dlg in script:
                full = list(dlg)
                if locked:
                    full = (unlock.pop() if unlock else [(P_PRIMARY, w.primary)]) + full
                    locked = False
                line = " ".join(cli.shell_quote(x) for x in words)
                out, err, unmet = sh.cmd_raw(line, full)
                if unmet is not None and unmet == P_PRIMARY:
                    raise Inconclusive("not asked for the primary password: %r" % err)
                w.mon.scan(sh.p.p.pid)
                found, _ = w.judge("shell: %r given %r" % (words, [x for _, x in full]), ("primary", "key", "hmac"))
                obs.case((words, dlg), True)
                obs.count("shell: " + words[0])
                if rng.random() < .25:
                    sh.lock()
                    locked = True
                    w.mon.scan(sh.p.p.pid)
                    w.judge("locked after %r" % (words,))
                    obs.count("scans while locked")
            rc = sh.close()
        w.judge("leaving the shell")


def terminals(rng, obs, n):
    """On a terminal: prompts without echo."""
    with Scratch() as d:
        w = World(rng, obs, d)
        create(w)
        for _ in range(n):
            words, dlg = w.command()
            dlg = [x for x in unlocking(w) + dlg]
            if any(len(x) > 3000 for _, x in dlg) or any("\t" in x for _, x in dlg) or len(w.mon.needles) > 140:
                continue
            terminal(w, words, dlg)
            w.judge("on a terminal: %r given %r" % (words, [x for _, x in dlg]), terminal=True)
            obs.case(("tty", words, dlg), True)
            obs.count("terminal: " + words[0])


def terminal(w, words, dlg):
    with term.Term(["-c", w.path] + words, env=w.mon.env(), cwd=w.d) as t:
        left, _ = term.dialogue(t, dlg)
        t.wait()
        if left:
            w.obs.count("terminal dialogues left early")


def listed(rng, obs, which):
    """The two listed findings, shown on purpose."""
    with Scratch() as d:
        w = World(rng, obs, d)
        create(w)
        if which == "json":
            t = w.text("stored password", esc=True)
            r = cli.run(w.path, ["add-stored", "a.com", "me"], [(P_PRIMARY, w.primary), (P_STORED, t)], cwd=d, env=w.mon.env())
            w.judge("storing a password with escapes")
            r = cli.run(w.path, ["show", "a.com", "me"], [(P_PRIMARY, w.primary)], cwd=d, env=w.mon.env())
            hits = [f for f in w.mon.read()[0] if f[1] in w.esc and heap.from_json_reader(f)]
            sig = "json-reader-buffer"
        else:
            terminal(w, ["list"], [(P_PRIMARY, w.primary)])
            hits = [f for f in w.mon.read()[0] if heap.from_terminal_prompt(f)]
            sig = "terminal-prompt-buffer"
        obs.case(which, True)
        if hits:
            raise Violation("%s stays behind in the heap: %r" % (hits[0][1], hits[0][4][:5]), signature=sig)


def main():
    common.build_cli()
    common.build_shim("heapmon")
    shutil.rmtree(os.path.join(common.BUILD, "symbols"), ignore_errors=True)
    r = Runner("C16", 900 if common.THOROUGH else 100)
    m = 25 if common.THOROUGH else 1
    r.run(listed, ["json", "terminal"], "listed findings")
    r.run(processes, [(12,)] * (16 * m), "processes")
    r.run(shells, [(25,)] * (16 * m), "shells")
    r.run(terminals, [(6,)] * (8 * m), "terminals")
    if not r.violations and r.obs.counters.get("canary seen", 0) < r.obs.counters.get("processes watched", 1) // 2:
        r.inconclusive += ["the monitor does not see what it has to see"] * 1000
    return finish(r, "exploration", RULE,
                  ["the heap is the C library's, which the program uses through malloc and free",
                   "registers, the stack and the terminal are out of scope, and so are encoded forms other than JSON and Base64",
                   "secrets of at least 10 bytes"], 200)
