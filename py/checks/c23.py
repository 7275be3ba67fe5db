"""C23: what a command does depends on the storage, its arguments and the answers, and on nothing else."""
import os, re, resource, signal, subprocess, time
import cli, common, gen, ref, term, tree
from cli import P_CODE, P_NEW, P_NOTES, P_OVERWRITE, P_PRIMARY, P_REPEAT, P_RESET, P_STORED
from common import Runner, Scratch, finish, Violation, Inconclusive
from model import Model

RULE = ("commands and whole shell sessions are carried out in plain surroundings and again in others: locale, terminal type and size, "
        "every environment variable the program asks for set to something, clocks that stand still, run or jump, no home directory, "
        "other directories, paths, program names, limits and histories, outputs and inputs that are files, pipes or one and the same "
        "pipe, a real terminal, slow typing. Status, texts (prompts, echoes, recovery codes and line wrapping of usage texts left out) and "
        "the decrypted storage have to be the same. Non-trivial: every run in other surroundings.")

PRIMARY, NEW = "foobar primary", "new primary"
PW = "stored secret"
CODE = ref.make_code(PW, b"s" * 16, ref.storage_key(PRIMARY, b"s" * 16)).split("\n")
HIDDEN = (P_PRIMARY, P_NEW, P_REPEAT, P_STORED)
SO = os.path.join(common.BUILD, "outside.so")
CODE_LINE = re.compile(r"[A-Z0-9]{4}-[A-Z0-9]{4}-")
NOISE = ("Did not load previous command history", "Failed saving history to", "Enter a command or type")


# ---------------------------------------------------------------- outcomes

def lines(text, paths, echoes=()):
    """What remains of a program's output without prompts, echoes and what is random."""
    if isinstance(text, bytes):
        text = text.decode("utf-8", "replace")
    text = re.sub(r"\x1b\[[0-9;]*m", "", text.replace("\r\n", "\n"))
    for p in cli_prompts:
        text = text.replace(p, "\n")
    text = re.sub(r" \([yY]/[nN]\) ", "\n", text)
    for p in paths:
        text = text.replace(p, "<path>")
    out = []
    if re.sub("(pfp> )*$", "", text)[-1:] not in ("", "\n"):
        text += "\n<last line not ended>\n"
    for ln in text.split("\n"):
        while ln.startswith("pfp> "):
            ln = ln[5:]
        if not ln.strip() or ln.startswith(NOISE):
            continue
        out.append("<code>" if CODE_LINE.match(ln.strip()) else ln)
    for e in echoes:
        e = "<code>" if CODE_LINE.match(e) else e
        if e.strip() and e in out:
            out.remove(e)
    if any("USAGE:" in x for x in out):
        # the rest is wrapped at the terminal's width, and names the program
        cut = re.sub("try re-running with '.*?'", "", " ".join(" ".join(out).split()).split("USAGE:")[0])
        return ["usage: " + " ".join(cut.split())]
    return out


cli_prompts = [p.decode() for p in (P_PRIMARY, P_NEW, P_REPEAT, P_STORED, P_NOTES, P_CODE + b" ")]


def contents(path, before):
    """What the storage amounts to."""
    try:
        with open(path, "rb") as f:
            data = f.read()
            mode = os.fstat(f.fileno()).st_mode
    except FileNotFoundError:
        return "missing"
    if mode != os.stat(path).st_mode or mode & 0o7777 != MODE:
        return "given other permissions: %o" % mode
    if data == before:
        return "unchanged"
    for primary in (PRIMARY, NEW):
        try:
            p = ref.read_storage(data.decode(), primary)
        except (ref.FormatError, UnicodeDecodeError):
            continue
        out = [(k, sorted((a, b) for a, b in e.items() if b not in (None, ""))) for k, e in p.passwords.items()]
        return primary, sorted(map(repr, out)), sorted(map(repr, p.sites.items()))
    return "unreadable: %r" % data[:80]


# ---------------------------------------------------------------- requests

MODE = 0o640
SITES = ["a.com", "b.com", "www.c.com", "al.com", "ISTANBUL.com", "none.com"]
NAMES = ["me", "TITLE", "title", "\u0131\u0130", "\u00fcser", "x y"]


def world(rng):
    m = Model(PRIMARY)
    sites, recs = {"al.com": "a.com"}, []
    m.alias["al.com"] = "a.com"
    for s in ("a.com", "b.com", "c.com", "ISTANBUL.com"):
        sites[s] = None
        for n in rng.sample(NAMES, 3):
            r = rng.choice(["", "", "2"])
            e = {"type": "stored", "password": gen.token(rng, 12)} if rng.random() < .75 else {"type": "generated2", "length": 12, "classes": ("lower", "number")}
            e["notes"] = rng.choice(["", "notes of " + n])
            m.pw[(s, n, r)] = e
            rec = {"type": e["type"], "site": s, "name": n, "revision": r, "notes": e["notes"]}
            rec.update({"password": e["password"]} if e["type"] == "stored" else {"length": 12, "lower": True, "upper": False, "number": True, "symbol": False})
            recs.append(rec)
    return m, ref.build_storage(PRIMARY, sites, recs)[0].encode()


def confirm(rng, prompt):
    """-> dialogue, whether it means yes"""
    d = [(prompt, rng.choice(["maybe", "1", "j", "yep"])) for _ in range(rng.random() < .2)]
    a = rng.choice(["y", "yes", "Y", "YES", "n", "no", "", "N"])
    return d + [(prompt, a)], a[:1].lower() == "y"


def request(rng, m, shell):
    """-> words, dialogue after unlocking. The model is kept up to date."""
    cmd = rng.choice(["add", "add", "add-stored", "add-stored", "remove", "show", "show", "notes", "notes", "list", "list", "alias", "malformed"] + ["set-primary", "set-primary"] * (not shell))
    if cmd == "set-primary":
        d, yes = [], True
        words = ["set-primary"]
        if rng.random() < .5:
            words.append("-y")
        else:
            d, yes = confirm(rng, P_RESET)
        k = rng.random()
        if yes:
            if k < .15:
                d += [(P_NEW, "short")]
            elif k < .3:
                d += [(P_NEW, NEW), (P_REPEAT, NEW + "x")]
            else:
                d += [(P_NEW, NEW), (P_REPEAT, NEW)]
        return words, d
    if cmd == "malformed":
        return rng.choice([["add", "a.com"], ["show"], ["lists"], ["add", "-l", "3", "a.com", "x"], ["list", "--nosuch"], ["notes", "a.com", "me", "x"], ["shell", "x"]]), None
    if cmd == "list":
        words = ["list"] + [x for x in ("-v", "-r") if rng.random() < .5] + (["-s"] if rng.random() < .2 else [])
        dom = rng.choice([[], ["a.com"], ["al.com"], ["*.com"], ["I*"], ["i*"]])
        return words + dom + ([rng.choice(["me", "T*", "\u0131*", "*"])] if dom and rng.random() < .4 else []), []
    if cmd == "alias":
        k = rng.randrange(3)
        s = rng.choice(["al.com", "new.com", "www.new.com", "NEW.com"])
        if k == 0:
            m.remove_alias(s)
            return ["alias", "-r", s], []
        if k == 1:
            t = rng.choice(["a.com", "b.com", "NEW.com"])
            m.set_alias(s, t)
            return ["alias", s, t], []
        return ["alias", s], []
    if m.pw and rng.random() < .7:
        s, n, r = rng.choice(sorted(m.pw))
    else:
        s, n, r = rng.choice(SITES), rng.choice(NAMES), rng.choice(["", "2"])
    has = m.has(s, n, r)
    opt = ["-r", r or "1"] if r or rng.random() < .3 else []
    words, d = [cmd] + opt + [s, n], []
    if cmd in ("add", "add-stored"):
        yes = True
        if rng.random() < .4:
            words.insert(1, "-y")
        elif has:
            d, yes = confirm(rng, P_OVERWRITE)
        if cmd == "add":
            if yes:
                m.add(s, n, r, 16, tuple(x for x, _ in ref.CLASSES))
        elif yes and rng.random() < .3:
            words.insert(1, "-c")
            d += [(P_CODE, x) for x in CODE]
            m.add_stored(s, n, PW, r)
        elif yes:
            v = gen.token(rng, 9)
            d += [(P_STORED, v)]
            m.add_stored(s, n, v, r)
    elif cmd == "remove":
        m.remove(s, n, r)
    elif cmd == "show":
        if rng.random() < .3:
            words.insert(1, "-q")
    elif rng.random() < .6:
        words.insert(1, "-s")
        if has:
            t = rng.choice(["", "some notes", "t\u00efme"])
            d = [(P_NOTES, t)]
            m.notes(s, n, r, t)
    return words, d


# ---------------------------------------------------------------- surroundings

class Around:
    """Surroundings of a run; everything in the directory d."""

    def __init__(self, rng, d, data, plain=False, shell=False):
        self.d, self.rng = d, rng
        self.env, self.pre, self.argv0, self.gone = {"HOME": d + "/home"}, [], None, False
        self.names, self.pace, self.how = [], 0, "pipes"
        self.cwd = d
        self.history = d + "/history"
        os.mkdir(d + "/home")
        self.path = d + "/storage.json"
        self.by = ["-c", self.path]
        if not plain:
            for what in sorted(rng.sample(sorted(KINDS), rng.choice([1, 1, 2, 2, 3, 4])), key=lambda k: (k != "default", k)):
                if not (shell and what in ("merged", "blind", "default", "out")):
                    self.names.append(what)
                    KINDS[what](self, rng)
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with open(self.path, "wb") as f:
            f.write(data)
            os.fchmod(f.fileno(), MODE)
        self.data = data
        if self.env.keys() & {"OUTSIDE_VALUE", "OUTSIDE_PASSWD", "OUTSIDE_CLOCK"}:
            self.env["LD_PRELOAD"] = SO

    def line(self, words):
        return " ".join(w if re.fullmatch("[A-Za-z0-9.-]+", w) and self.rng.random() < .8 else cli.shell_quote(w) for w in words)

    def how_to(self):
        def prepare():
            for f in self.pre:
                f()
        return {"env": self.env, "cwd": self.cwd, "argv0": self.argv0, "prepare": prepare if self.pre else None}


def k_locale(a, rng):
    for n in rng.sample(["LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "LC_MESSAGES", "LC_COLLATE"], 2):
        a.env[n] = rng.choice(["C", "POSIX", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.eucJP", "", "nonsense", "en_US.UTF-8"] + TONGUES)


def k_terminal_type(a, rng):
    a.env["TERM"] = rng.choice(["dumb", "", "xterm-256color", "vt52", "nonsense", None])
    a.env.update(rng.choice([{"COLUMNS": "20", "LINES": "3"}, {"COLUMNS": "0"}, {"COLUMNS": "x"}, {"COLUMNS": "500"}]))
    a.env.update(rng.choice([{}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1"}, {"CLICOLOR": "0"}, {"FORCE_COLOR": "3"}]))


def k_debugging(a, rng):
    a.env.update({"RUST_BACKTRACE": rng.choice(["full", "1", "0"]), "RUST_LOG": "trace", "DEBUG": "1", "VERBOSE": "1"})


def k_variables(a, rng):
    """Whatever variable is asked for has this value."""
    a.env["OUTSIDE_VALUE"] = rng.choice(["1", "true", "0", "yes", "20", "/dev/null", "", "a", "never", a.d])
    a.env["OUTSIDE_KEEP"] = ":HOME:XDG_CONFIG_HOME:XDG_DATA_HOME:XDG_CACHE_HOME:XDG_STATE_HOME:XDG_RUNTIME_DIR:PATH:TMPDIR:"


def k_clock(a, rng):
    a.env["OUTSIDE_CLOCK"] = "%d:%d" % (rng.choice([0, 1, 1700000000, 4102444800, 2 ** 31 - 5, -86400]), rng.choice([0, 1, 61, 3600, 86400 * 30]))
    a.env["TZ"] = rng.choice(["", "UTC", "Asia/Tokyo", "nonsense", "XXX-14"])


def k_pace(a, rng):
    a.pace = rng.choice([.02, .1, .4])


def k_nobody(a, rng):
    if not a.by:
        return
    a.env["OUTSIDE_PASSWD"] = "0"
    a.env["HOME"] = rng.choice([None, "", "relative", "/proc/nonexistent", "/dev/null"])
    a.env.update({"USER": rng.choice([None, "root", "nobody"]), "LOGNAME": None})


def k_home(a, rng):
    if a.by:
        a.env.update(rng.choice([{"XDG_CONFIG_HOME": a.d + "/xdg"}, {"HOME": a.d}, {"XDG_CONFIG_HOME": "relative"}, {"XDG_CONFIG_HOME": ""}, {"HOME": "/proc"}]))
    # settings nobody speaks of
    for base in (a.d + "/home/.config/PfP", a.d + "/xdg/PfP"):
        os.makedirs(base, exist_ok=True)
        for n in ("config.json", "config.toml", "settings.json", "pfp.conf"):
            with open(base + "/" + n, "w") as f:
                f.write('{"length": 20, "assume_yes": true}\n')


def k_directory(a, rng):
    k = rng.randrange(4)
    if k == 0:
        a.cwd = "/proc"
    elif k == 1:
        a.cwd = a.d + "/other"
        os.makedirs(a.cwd + "/PfP")
        for n in ("storage.json", "PfP/storage.json", ".pfprc", "pfp.toml"):
            with open(a.cwd + "/" + n, "w") as f:
                f.write("{}")
    elif k == 2:
        os.mkdir(a.d + "/gone")
        a.pre.append(lambda: (os.chdir(a.d + "/gone"), os.rmdir(a.d + "/gone")))
        a.gone = True
    else:
        a.cwd = a.d + "/sub"
        os.makedirs(a.cwd)
        if a.by and a.path == a.d + "/storage.json" and not a.gone:
            a.by = ["-c", "../storage.json"]


def k_path(a, rng):
    if not a.by or a.by[1] != a.path:
        return
    a.path = a.d + "/" + rng.choice(["s p a c e", "\u00fc\u0131", "deep/er/and deeper", ".hidden", "UPPER.JSON", "storage.json.bak", "a.tmp", "-x", "storage.json/storage.json",
                                   "n" * 200, "storage", "*", "'q'", "pfp"])
    a.by = rng.choice([["-c", a.path], ["--storage", a.path], ["--storage=" + a.path]])


def k_default(a, rng):
    """No path given."""
    a.by = []
    a.path = a.d + "/home/.config/PfP/storage.json"
    a.env.update({"HOME": a.d + "/home", "XDG_CONFIG_HOME": rng.choice([None, "", "relative", a.d + "/home/.config"])})


def k_name(a, rng):
    a.argv0 = rng.choice(["list", "pfp", "", "show", "/x/y/pfp-cli.exe", "-pfp", "add", "sudo"])


def k_limits(a, rng):
    k = rng.randrange(6)
    R = resource
    a.pre.append([lambda: os.umask(0), lambda: os.umask(0o77), lambda: R.setrlimit(R.RLIMIT_CORE, (0, 0)), lambda: R.setrlimit(R.RLIMIT_NOFILE, (30, 30)),
                  lambda: R.setrlimit(R.RLIMIT_STACK, (2 ** 20, 2 ** 20)), lambda: R.setrlimit(R.RLIMIT_MEMLOCK, (0, 0))][k])
    a.names[-1] += " %d" % k
    if rng.random() < .3:
        a.pre.append(lambda: [signal.signal(x, signal.SIG_IGN) for x in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM)])


def k_history(a, rng):
    with open(a.history, "w") as f:
        f.write(rng.choice(["exit\n", "#V2\nadd x y\nlock\n", "set-primary\n" * 200, "\0\xff\n", "list\n", "!!\n"] + [rng.choice(["#V2\n", ""]) + "".join("list %d\n" % i for i in range(n)) for n in (50, 99, 100, 300, 3000)]))


def k_merged(a, rng):
    if a.how == "pipes":
        a.how = "merged"


def k_blind(a, rng):
    if a.how == "pipes":
        a.how = "blind"


def k_half(a, rng):
    """Lines come from a file or pipe, secrets are typed."""
    a.how = "half"


def k_out(a, rng):
    """Output goes to a file, everything else is the terminal."""
    a.how = "out"


def k_tty(a, rng):
    a.how = "terminal"


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("k_")}


def blind_ok(dlg):
    """Whether the answers can be there from the start: what asks openly reads ahead."""
    opened = False
    for p, _ in dlg:
        if p in HIDDEN and opened:
            return False
        opened = opened or p not in HIDDEN
    return True


def perform(a, words, dlg):
    """-> status, lines of stdout and stderr or of both together, unmet prompt, contents"""
    paths = [a.path, a.by[-1].split("=")[-1] if a.by else a.path]
    how = a.how
    if how == "blind" and not blind_ok(dlg):
        how = "pipes"
    left = None
    if how in ("terminal", "half", "out"):
        source = sink = None
        if how == "out" and any(p not in HIDDEN for p, _ in dlg):
            how = "terminal"        # (a question would go to the file)
        if how == "out":
            sink = open(a.d + "/out", "w+b")
        if how == "half":
            with open(a.d + "/in", "w") as f:
                f.write("".join(r + "\n" for p, r in dlg if p not in HIDDEN))
            dlg = [x for x in dlg if x[0] in HIDDEN]
            source = open(a.d + "/in")
        with term.Term(a.by + words, stdin=source, stdout=sink, **a.how_to()) as t:
            typed = []
            for p, reply in dlg:
                if not t.expect(p):
                    left = p
                    break
                if p in HIDDEN:
                    t.hidden()
                else:
                    typed.append(reply)
                time.sleep(a.pace)
                t.type(reply + "\n")
            rc = t.wait()
            if source:
                source.close()
            if sink:
                sink.seek(0)
                with sink:
                    return rc, lines(sink.read(), paths), lines(t.screen, paths, typed), left, contents(a.path, a.data)
            both = lines(t.screen, paths, typed)
        return rc, both, None, left, contents(a.path, a.data)
    args = ["--stdin-passwords"] + a.by + words
    if how == "blind":
        with open(a.d + "/in", "w") as f:
            f.write("".join(r + "\n" for _, r in dlg))
        env = {k: v for k, v in dict({"PATH": "/usr/bin:/bin", "TERM": "xterm", "LANG": "C.UTF-8"}, **a.env).items() if v is not None}
        with open(a.d + "/in") as i, open(a.d + "/out", "wb") as o, open(a.d + "/err", "wb") as e:
            try:
                rc = subprocess.run([common.CLI if a.argv0 is None else a.argv0] + args, executable=common.CLI, stdin=i, stdout=o, stderr=e, timeout=120,
                                    **dict({k: v for k, v in a.how_to().items() if k in ("cwd",)}, env=env, preexec_fn=a.how_to()["prepare"])).returncode
            except subprocess.TimeoutExpired:
                raise Inconclusive("watchdog: %r" % (args,))
        left = "unknown"
        out, err = open(a.d + "/out", "rb").read(), open(a.d + "/err", "rb").read()
    else:
        with cli.Proc(args, merge=how == "merged", **a.how_to()) as p:
            for q, reply in dlg:
                if p.expect(q) is None:
                    left = q
                    break
                time.sleep(a.pace)
                p.line(reply)
            rc = p.finish()
            out, err = p.out, p.err
        if how == "merged":
            return rc, lines(out, paths), None, left, contents(a.path, a.data)
    return rc, lines(out, paths), lines(err, paths), left, contents(a.path, a.data)


def same(a, b):
    """Compares outcomes; None or what differs."""
    if a[0] != b[0]:
        return "status %r instead of %r" % (b[0], a[0])
    if a[3] != b[3] and b[3] != "unknown":
        return "prompt never shown: %r, plain: %r" % (b[3], a[3])
    if b[2] is None:
        x, y = sorted(a[1] + a[2]), sorted(b[1])
    else:
        x, y = a[1:3], b[1:3]
    if list(x) != list(y):
        return "it says %r instead of %r" % (y, x)
    if a[4] != b[4]:
        return "the storage is then %s instead of %s" % (str(b[4])[:1500], str(a[4])[:1500])
    return None


def commands(rng, obs, n):
    for _ in range(n):
        m, data = world(rng)
        words, dlg = request(rng, m, False)
        if dlg is None:
            dlg = []
        elif words[0] != "set-primary":
            dlg = [(P_PRIMARY, rng.choice(["wrong primary", "short"])) for _ in range(rng.random() < .15)] + [(P_PRIMARY, PRIMARY)] + dlg
        if rng.random() < .05:
            data = rng.choice([b"", b"{}", b"not JSON", data.replace(b"pfp-cli-storage", b"other"), data[:-10]])
        with Scratch() as d:
            plain = perform(Around(rng, d, data, plain=True), words, dlg)
        if plain[0] not in (0, 1, 2):
            raise Violation("%r crashes with status %r: %r" % (words, plain[0], plain[2]))
        for i in range(4):
            with Scratch() as d:
                a = Around(rng, d, data)
                got = perform(a, words, dlg)
                x = same(plain, got)
                if x:
                    raise Violation("%r with answers %r, in other surroundings (%s): %s" % (words, [r for _, r in dlg], ", ".join(a.names), x),
                                    env=repr(a.env), argv0=repr(a.argv0), by=repr(a.by), cwd=a.cwd)
            obs.case(("command", tuple(words), tuple(a.names), tuple(sorted((k, str(v)) for k, v in a.env.items() if d not in str(v)))), True)
            for k in a.names:
                obs.count("surroundings: " + k)
            obs.count("status %d" % got[0])
            obs.count("storage " + ("unchanged" if got[4] == "unchanged" else "changed"))


END = b"\x1b[?2004h"
TYPED = b"\x1b[?2004l\r\n"


def session(a, reqs):
    """A shell session. -> outcome per request, contents"""
    paths = [a.path]
    res = []
    first = True
    if a.how == "half":
        # everything from a file, but the primary password and those to be stored
        with open(a.d + "/in", "w") as f:
            for words, dlg in reqs:
                f.write(a.line(words) + "\n" + "".join(r + "\n" for p, r in dlg or [] if p not in HIDDEN))
            f.write("exit\n")
        with open(a.d + "/in") as source, term.Term(a.by + ["shell", "-s", a.history], stdin=source, **a.how_to()) as t:
            for words, dlg in reqs:
                full = [x for x in dlg or [] if x[0] in HIDDEN]
                if first and dlg is not None:
                    full.insert(0, (P_PRIMARY, PRIMARY))
                    first = False
                for p, reply in full:
                    if t.expect(p):
                        t.hidden()
                        t.type(reply + "\n")
            rc = t.wait()
            return [(0, lines(t.screen, paths), None, None, contents(a.path, a.data))], rc
    if a.how == "terminal":
        a.env["TERM"] = "xterm"
        with term.Term(a.by + ["shell", "-s", a.history], **a.how_to()) as t:
            if not t.expect(END):
                raise Violation("the shell does not start on a terminal: %r" % t.screen[-300:], around=repr(a.names))
            for words, dlg in reqs:
                t.expect(b"pfp> ")
                time.sleep(a.pace / 10)
                t.type(a.line(words) + "\r")
                if not t.expect(TYPED):
                    raise Violation("the shell ends at %r: %r" % (words, t.screen[-300:]), around=repr(a.names))
                start = t.pos
                left, typed = None, []
                full = list(dlg) if dlg is not None else []
                if first and dlg is not None:
                    full.insert(0, (P_PRIMARY, PRIMARY))
                    first = False
                for p, reply in full:
                    # a prompt that does not come is noticed by the next line to be edited
                    while t.screen.find(p, t.pos) < 0 and t.screen.find(END, start) < 0:
                        if not t.pump() and t.p.poll() is not None or time.time() > t.end:
                            break
                    if t.screen.find(p, t.pos) < 0:
                        left = p
                        break
                    t.expect(p)
                    if p in HIDDEN:
                        t.hidden()
                    else:
                        typed.append(reply)
                    time.sleep(a.pace / 10)
                    t.type(reply + "\n")
                if not t.expect(END):
                    raise Violation("the shell ends at %r: %r" % (words, t.screen[-300:]), around=repr(a.names))
                text = t.screen[start:t.pos - len(END)]
                res.append((0, lines(text, paths, typed), None, left, contents(a.path, a.data)))
            t.expect(b"pfp> ")
            t.type("exit\r")
            rc = t.wait()
        return res, rc
    s = cli.Shell(a.by[1] if len(a.by) > 1 else a.path, PRIMARY, a.history, **a.how_to())
    with s:
        for words, dlg in reqs:
            full = list(dlg) if dlg is not None else []
            if first and dlg is not None:
                full.insert(0, (P_PRIMARY, PRIMARY))
                first = False
            time.sleep(a.pace / 10)
            out, err, left = s.cmd_raw(a.line(words), full)
            res.append((0, lines(out, paths), lines(err, paths), left, contents(a.path, a.data)))
        rc = s.close()
    return res, rc


def sessions(rng, obs, n):
    for _ in range(n):
        m, data = world(rng)
        half = rng.random() < .3
        reqs = []
        for _ in range(rng.choice([6, 12, 20])):
            w, d = request(rng, m, True)
            while half and (d is None or w[:2] == ["notes", "-s"]):     # (the text of notes: listed finding)
                w, d = request(rng, m, True)
            if w[0] == "show" and m.pw and rng.random() < .5:
                w, d = ["list", "-v"], []
            reqs.append((w, d))
        with Scratch() as d:
            plain, rc = session(Around(rng, d, data, plain=True, shell=True), reqs)
        for i in range(4):
            with Scratch() as d:
                a = Around(rng, d, data, shell=True)
                if i == 0 and a.how != "terminal":
                    a.names.append("tty")
                    k_tty(a, rng)
                if i == 1 and "history" not in a.names:
                    a.names.append("history")
                    k_history(a, rng)
                if half and i < 2 and not any(x[3] for x in plain):
                    a.how = "half"
                    a.names.append("half")
                elif a.how == "half":
                    a.how = "pipes"
                got, rc2 = session(a, reqs)
                if rc2 != rc:
                    raise Violation("a shell in other surroundings (%s) ends with status %r instead of %r" % (", ".join(a.names), rc2, rc))
                if a.how == "half":
                    expected = [(0, sorted(z for x in plain for y in x[1:3] for z in y), [], None, plain[-1][4])]
                    pairs = zip([(["a whole session"], [])], expected, got)
                else:
                    pairs = zip(reqs, plain, got)
                for (w, dl), x, y in pairs:
                    bad = same(x, y)
                    if bad:
                        raise Violation("%r with answers %r in a shell in other surroundings (%s): %s" % (w, [r for _, r in dl or []], ", ".join(a.names), bad),
                                        env=repr(a.env), log=[repr(r) for r in reqs])
                    obs.count("shell commands compared")
            obs.case(("session", tuple(map(repr, reqs)), tuple(a.names)), True)
            for k in a.names:
                obs.count("surroundings: " + k)


TONGUES = ["de_DE.UTF-8", "de", "fr_FR.UTF-8", "es_ES.UTF-8", "it_IT", "pt_BR.UTF-8", "ru_RU.UTF-8", "ja_JP.UTF-8", "zh_CN.GB18030", "nl_NL", "pl_PL.UTF-8", "sv_SE", "tr_TR", "el_GR.UTF-8", "ar_EG.UTF-8"]
CONSENT = ["j", "ja", "J", "o", "oui", "s", "si", "s\u00ed", "S", "sim", "d", "da", "\u0434", "\u0434\u0430", "hai", "\u306f\u3044", "\u662f", "t", "tak", "e", "evet", "\u03bd\u03b1\u03b9",
           "\u0646\u0639\u0645", "ok", "1", "true", "on", "yep", "ye", "yess", "jo", "+", "\uff59", "Y.", "nein", "non", "nej", "hay\u0131r", "0", "false", "off", "nope"]


def tongues(rng, obs, language):
    """Questions are asked and answered in English wherever the user lives."""
    m, data = world(rng)
    s, n, r = sorted(m.pw)[0]
    for words, first, question, last in [(["add", "-r", r or "1", s, n], [(P_PRIMARY, PRIMARY)], P_OVERWRITE, []),
                                         (["set-primary"], [], P_RESET, [(P_NEW, NEW), (P_REPEAT, NEW)])]:
        for yes in (False, True):
            answers = [(question, x) for x in rng.sample(CONSENT, len(CONSENT))] + [(question, "y" if yes else "n")]
            dlg = first + answers + (last if yes else [])
            with Scratch() as d:
                plain = perform(Around(rng, d, data, plain=True), words, dlg)
            if plain[0] != 0 and yes or plain[3] or (plain[4] == "unchanged") == yes:
                raise Violation("%r with answers %r: status %r, %r" % (words, [x for _, x in answers], plain[0], plain[1:4]))
            with Scratch() as d:
                a = Around(rng, d, data, plain=True)
                for v in rng.choice([["LANG"], ["LC_ALL"], ["LC_MESSAGES", "LANG"], ["LANGUAGE", "LANG"], ["LANG", "LC_ALL", "LC_MESSAGES", "LC_CTYPE", "LANGUAGE"]]):
                    a.env[v] = language
                x = same(plain, perform(a, words, dlg))
                if x:
                    raise Violation("%r with answers %r where %r: %s" % (words, [x for _, x in answers], a.env, x))
            obs.case(("tongue", language, tuple(words), yes), True)
            obs.count("answers that are none", len(CONSENT))


def redirected_notes(rng, obs):
    """The listed finding: notes whose text comes from where the shell's commands come from."""
    m, data = world(rng)
    s, n, r = sorted(m.pw)[0]
    reqs = [(["notes", "-s", "-r", r or "1", s, n], [(P_NOTES, "redirected text")]), (["list", "-v"], [])]
    with Scratch() as d:
        a = Around(rng, d, data, plain=True, shell=True)
        plain, rc = session(a, reqs)
    with Scratch() as d:
        a = Around(rng, d, data, plain=True, shell=True)
        a.how = "half"
        got, rc2 = session(a, reqs)
    obs.case("redirected notes", True)
    if got[-1][4] != plain[-1][4]:
        gone = any("unexpected end of input" in x for x in got[-1][1])
        raise Violation("%r with the commands and the text redirected to a shell: %r, typed: %r" % (reqs[0][0], got[-1][1], plain[0][1:3]),
                        signature="shell-redirected-notes" if gone and got[-1][4] == "unchanged" else None)


def main():
    common.build_cli()
    common.build_shim("outside")
    r = Runner("C23", 900 if common.THOROUGH else 90)
    m = 40 if common.THOROUGH else 1
    r.run(redirected_notes, [()], "listed finding")
    r.run(commands, [(4,)] * (32 * m), "commands")
    r.run(sessions, [(2,)] * (20 * m), "sessions")
    r.run(tongues, [(x,) for x in TONGUES * (2 if common.THOROUGH else 1)], "tongues")
    return finish(r, "exploration", RULE,
                  ["recovery codes are compared for being there only (they contain fresh random numbers)",
                   "answers on a terminal have no control characters and fit a terminal line"], 150)
