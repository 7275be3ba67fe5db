"""C04: an operation changes exactly the storage it was pointed at, and only when it reports success."""
import os, resource, stat
import cli, common, gen, ref
from cli import P_PRIMARY, P_STORED, P_NOTES, P_NEW, P_REPEAT, P_OVERWRITE, P_RESET, P_CODE
from common import Runner, Scratch, finish, Violation
from model import Model
from store import cleanup_error
from tree import snapshot, changes

RULE = ("commands of every kind (succeeding, refused, declined, aborted, unlocked with wrong passwords, malformed, without space to save) on every "
        "layout of the storage (modes, symbolic links, missing parent directories, relative paths, default location, odd "
        "file names) among decoy files in the storage's directory, the home, working and temporary directories; the whole "
        "tree is compared before/after every command, and for shell sessions after every command of the session. "
        "Non-trivial: a case in which at least one command succeeded in changing the storage and one had to leave it alone.")

PRIMARY = "frame primary"


def content(m):
    pws = [dict(type="stored", site=k[0], name=k[1], revision=k[2], password=v["password"],
                **({"notes": v["notes"]} if v["notes"] else {})) for k, v in m.pw.items()]
    recs = {k[0]: None for k in m.pw}
    recs["empty.com"] = None
    recs.update(m.alias)
    return ref.build_storage(PRIMARY, recs, pws, salt=b"fedcba9876543210", hs=b"k" * 32)[0]


def model():
    m = Model(PRIMARY)
    for s, n, r in (("a.com", "me", ""), ("a.com", "you", "2"), ("b.com", "me", ""), ("*.com", "*", "")):
        m.pw[(s, n, r)] = {"type": "stored", "password": "pw of %s %s" % (s, n), "notes": "note" if n == "me" else ""}
    m.alias["al.com"] = "a.com"
    return m


U = [(P_PRIMARY, PRIMARY)]


def command(rng, m, code):
    """-> words, dialogue after unlocking, effect on the model (None: everything has to stay), whether it has to succeed.
    A reply of None in the dialogue stands for the end of input."""
    s = rng.choice(["a.com", "www.a.com", "al.com", "b.com"])
    n = rng.choice(["me", "you", "nobody", "*"])
    rev = "2" if n == "you" else "1"
    R = ["-r", rev] if rev != "1" else []
    has = m.has(s, n, rev)
    k = rng.randrange(22)
    consent = [(P_OVERWRITE, rng.choice(["y", "yes"]))] if has else []
    decline = [(P_OVERWRITE, rng.choice(["n", "no", ""]))]
    if k < 3:
        y = rng.random() < .5
        return ["add", s, n] + R + (["-y"] if y else []), [] if y else consent, "add", True
    if k == 3:
        return ["add", s, n, "-l", rng.choice(["3", "25", "abc", "-1", "99999999999999999999999"])], None, None, False
    if k == 4:
        return ["add", s, n, "-wuds"], [], None, False
    if k in (5, 6):
        if has:
            return [rng.choice(["add", "add-stored"]), s, n] + R, decline, None, None
        return ["add-stored", s, n] + R, [(P_STORED, None)], None, False
    if k in (7, 8):
        y = rng.random() < .5
        return ["add-stored", s, n] + R + (["-y"] if y else []), ([] if y else consent) + [(P_STORED, "new secret")], "stored", True
    if k == 9:
        return ["add-stored", "-y", "-c", s, n] + R, [(P_CODE, code[:30]), (P_CODE, "")], None, False
    if k in (10, 11):
        return ["remove", s, n] + R, [], "remove" if has else None, has
    if k == 12:
        return ["remove", rng.choice(["*", "a*", ""]), rng.choice(["*", "?e", ""])], [], None, False
    if k == 13:
        return ["show"] + rng.choice([[], ["-q"]]) + [s, n] + R, [], None, has
    if k == 14:
        return ["notes", s, n] + R, [], None, has
    if k == 15:
        return ["notes", "-s", s, n] + R, [(P_NOTES, "other notes")] if has else [], "notes" if has else None, has
    if k == 16:
        return ["notes", "-s", s, n] + R, [(P_NOTES, None)] if has else [], None, False
    if k == 17:
        a, t = rng.choice(["d.com", "al.com", "www.x.com", "a.com", "b.com"]), s
        return ["alias", a, t], [], "alias" if m.copy().set_alias(a, t) else None, m.copy().set_alias(a, t)
    if k == 18:
        a = rng.choice(["d.com", "al.com", "x.com", "a.com"])
        return ["alias", a], [], None, a in m.alias
    if k == 19:
        a = rng.choice(["d.com", "al.com", "x.com", "a.com"])
        return ["alias", "-r", a], [], "unalias" if a in m.alias else None, a in m.alias
    if k == 20:
        return ["list"] + rng.choice([[], ["-v"], ["-r"]]) + rng.choice([[], [s], ["*.com", "m*"], ["nothing"]]), [], None, True
    return rng.choice([["nosuch"], ["remove", s], ["show"], ["add", s], ["alias"], ["list", "a", "b", "c"]]), None, None, False


def effect(m, words, eff):
    pos = [w for w in words[1:] if not w.startswith("-")]
    rev = pos[2] if len(pos) > 2 else "1"
    if eff == "add":
        return m.add(pos[0], pos[1], rev)
    if eff == "stored":
        return m.add_stored(pos[0], pos[1], "new secret", rev)
    if eff == "remove":
        return m.remove(pos[0], pos[1], rev)
    if eff == "notes":
        return m.notes(pos[0], pos[1], rev, "other notes")
    if eff == "alias":
        return m.set_alias(pos[0], pos[1])
    if eff == "unalias":
        return m.remove_alias(pos[0])


MODES = {"mode600": 0o600, "mode640": 0o640, "mode666": 0o666, "mode664": 0o664, "mode444": 0o444, "mode400": 0o400, "mode755": 0o755,
         "mode000": 0, "mode2660": 0o2660, "mode4711": 0o4711, "mode1606": 0o1606}
LAYOUTS = ["plain"] + list(MODES) + [ "symlink", "symlink2", "abslink", "relative", "bare", "default", "xdg",
           "odd", "noext"]


class World:
    """A tree with a storage in it and things that have to stay as they are."""

    def __init__(self, d, layout, text, rng):
        self.d = d
        for n in ("home", "cwd", "tmp", "s", "other"):
            os.mkdir(os.path.join(d, n))
        self.cwd = d + "/cwd"
        self.env = {"HOME": d + "/home", "TMPDIR": d + "/tmp"}
        self.arg = d + "/s/storage.json"
        self.real = self.arg
        mode = MODES.get(layout, 0o644)
        if layout in ("symlink", "symlink2", "abslink"):
            self.real = d + "/other/real.json"
            if layout == "symlink":
                os.symlink("../other/real.json", self.arg)
            elif layout == "abslink":
                os.symlink(self.real, self.arg)
            else:
                os.symlink("../other/mid", self.arg)
                os.symlink("real.json", d + "/other/mid")
        elif layout == "relative":
            self.arg, self.real = "../s/sub/store", d + "/s/sub/store"
        elif layout == "bare":
            self.arg, self.real = "store.json", d + "/cwd/store.json"
        elif layout in ("default", "xdg"):
            self.arg, self.real = None, None
            if layout == "xdg":
                self.env["XDG_CONFIG_HOME"] = d + "/other/conf ig"
        elif layout == "odd":
            self.arg = self.real = d + "/s/" + rng.choice([" my store .json", "-c", "ünïcödé", "a'b\"c", "new\nline", "*"])
        elif layout == "noext":
            self.arg = self.real = d + "/s/storage"
        self.text = text
        self.layout = layout
        if self.real:
            os.makedirs(os.path.dirname(self.real), exist_ok=True)
            if text is not None:
                with open(self.real, "w") as f:
                    f.write(text)
                os.chmod(self.real, mode)
        # decoys
        for p in ("s/storage.json~", "s/storage.json.tmp", "s/storage.json.bak", "s/storage.tmp", "s/other.json", "home/storage.json",
                  "cwd/storage.json", "tmp/storage.json", "s/.storage.json.swp", "cwd/history.txt", "home/.pfp", "other/real.json.tmp"):
            p = os.path.join(d, p)
            if p != self.real and not os.path.exists(p) and rng.random() < .6:
                with open(p, "w") as f:
                    f.write(rng.choice(["decoy", content(model()), "{}"]))

    def locate(self):
        """Finds the storage created in the default place."""
        hits = []
        for b, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(b, f)
                if f == "storage.json" and b.startswith((self.d + "/home/", self.d + "/other/")):
                    hits.append(p)
        return hits

    def bytes(self):
        try:
            with open(self.real, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None


def verify(w, m, words, before, after, bytes_before, eff, desc, extra=()):
    ch = changes(before, after)
    real = os.path.relpath(w.real, w.d)
    for k, (a, b) in sorted(ch.items()):
        if k in extra:
            continue
        if k == real and eff is not None:
            if a and b and a[:-1] != b[:-1]:
                raise Violation("%s changes the storage file's type, permissions or owner: %r -> %r" % (desc, a[:-1], b[:-1]))
            continue
        if k == real:
            if words[0] == "list" and a and b and a[:-1] == b[:-1]:
                e = cleanup_error(bytes_before, w.bytes(), m.primary)
                if e:
                    raise Violation("%s %s" % (desc, e))
                continue
            raise Violation("%s changes the storage although it %s" % (desc, "only queries it" if words[0] in (
                "show", "notes", "list", "alias") else "did not succeed"))
        raise Violation("%s changes %r, which is not the storage: %r -> %r" % (desc, k, a, b))
    text = w.bytes()
    try:
        p = ref.read_storage(text.decode("utf-8"), m.primary)
    except (ref.FormatError, UnicodeDecodeError) as e:
        raise Violation("%s leaves an unreadable storage: %s" % (desc, e))
    df = m.diff(p)
    if df:
        raise Violation("%s: %s" % (desc, "; ".join(df[:3])))


def oneshot(rng, obs, layout, n):
    with Scratch() as d:
        m = model()
        w = World(d, layout, content(m), rng)
        if layout in ("default", "xdg"):
            create_default(w, m, rng)
        code = ref.make_code("recovered", os.urandom(16), os.urandom(32))
        changed = kept = 0
        for i in range(n):
            words, dlg, eff, ok = command(rng, m, code)
            before, b0 = snapshot(d), w.bytes()
            env = dict(w.env)
            if dlg is None:
                dialogue, wrong = [], False
            else:
                wrong = rng.random() < .1
                if wrong:  # gives up after wrong passwords
                    dialogue = [(P_PRIMARY, rng.choice(["wrong password", "short", ""]))] * rng.randint(1, 2) + [(P_PRIMARY, None)]
                else:
                    dialogue = U + dlg
            if wrong:
                ok, eff = False, None
            m2 = m.copy()
            if eff and not effect(m2, words, eff):
                raise Violation("harness: %r" % words)
            limit = None
            if eff and rng.random() < .2:  # the disk is full
                limit, ok, eff = rng.choice([0, 1, 50, 600]), False, None
                obs.count("failing_saves")
            r = cli.run(w.arg, words, dialogue, cwd=w.cwd, env=env, prepare=None if limit is None else cli.file_limit(limit))
            desc = "%r (storage layout %s%s)" % (words, layout, "" if limit is None else ", no space")
            if r.panicked():
                raise Violation("%s panics: %r" % (desc, r.err[-300:]))
            if r.unmet is not None:
                raise Violation("%s never asks %r: %r" % (desc, r.unmet, r))
            if ok and r.rc != 0:
                raise Violation("%s does not succeed: %r" % (desc, r))
            if eff is None and ok is False and r.rc == 0:
                raise Violation("%s reports success: %r" % (desc, r))
            if eff:
                m = m2
                changed += 1
            else:
                kept += 1
            verify(w, m, words, before, snapshot(d), b0, eff, desc)
            obs.count("commands_" + ("changing" if eff else "leaving_alone"))
        obs.case((layout, i, sorted(m.pw)), changed > 0 and kept > 0,
                 {"layout": layout, "commands": n, "changed": changed, "left_alone": kept})


def create_default(w, m, rng):
    before = snapshot(w.d)
    r = cli.run(None, ["set-primary"], [(P_NEW, PRIMARY), (P_REPEAT, PRIMARY)], cwd=w.cwd, env=w.env)
    if r.rc != 0:
        raise Violation("set-primary fails in the default location: %r" % r)
    hits = [p for p in w.locate() if os.path.relpath(p, w.d) not in before]
    if len(hits) != 1:
        raise Violation("set-primary without a path creates %r" % hits)
    w.real = hits[0]
    conf = w.env.get("XDG_CONFIG_HOME", w.env["HOME"] + "/.config")
    if not w.real.startswith(conf + "/"):
        raise Violation("the default storage %r is outside the configuration directory %r" % (w.real, conf))
    new = [k for k, (a, b) in changes(before, snapshot(w.d)).items() if b and b[0] != "dir" or a]
    if new != [os.path.relpath(w.real, w.d)]:
        raise Violation("set-primary also changes %r" % new)
    with open(w.real, "w") as f:
        f.write(content(m))


def session(rng, obs, layout, n):
    """The same inside one shell: the file is looked at after every command, while the shell is still running."""
    with Scratch() as d:
        m = model()
        w = World(d, layout, content(m), rng)
        code = ref.make_code("recovered", os.urandom(16), os.urandom(32))
        # a history file which cannot be written is no reason to change anything else
        hist = rng.choice([d + "/home/hist", d + "/tmp/hist.txt", d + "/home/hist", d + "/home/no such/dir/hist", d + "/no/hist", d + "/other"])
        start = snapshot(d)
        changed = kept = 0
        storage = w.arg
        with cli.Shell(storage, PRIMARY, hist, cwd=w.cwd, env=w.env, prepare=cli.file_limit(None)) as sh:
            verify(w, m, ["shell"], start, snapshot(d), w.bytes(), None, "starting a shell")
            for i in range(n):
                words, dlg, eff, ok = command(rng, m, code)
                if dlg and dlg[-1][1] is None:
                    continue  # the end of input would end the session
                before, b0 = snapshot(d), w.bytes()
                m2 = m.copy()
                if eff:
                    effect(m2, words, eff)
                if dlg is None:
                    if not sh.unlocked:
                        continue
                    dlg = []
                full = eff and rng.random() < .2
                if full:  # the disk is full, for this command
                    m2, ok, eff = m, False, None
                    resource.prlimit(sh.p.p.pid, resource.RLIMIT_FSIZE, (rng.choice([0, 1, 50, 600]), resource.RLIM_INFINITY))
                    obs.count("failing_saves")
                out, err, unmet = sh.cmd(words, dlg)
                desc = "%r in a shell (storage layout %s%s)" % (words, layout, ", no space" if full else "")
                if full:
                    resource.prlimit(sh.p.p.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                if unmet is not None:
                    raise Violation("%s never asks %r: %r %r" % (desc, unmet, out[-200:], err[-200:]))
                if ok and err:
                    raise Violation("%s does not succeed: %r" % (desc, err))
                if ok is False and not err:
                    raise Violation("%s reports success: %r" % (desc, out))
                if eff:
                    m, changed = m2, changed + 1
                else:
                    kept += 1
                verify(w, m, words, before, snapshot(d), b0, eff, desc)
                obs.count("session_commands_" + ("changing" if eff else "leaving_alone"))
            before, b0 = snapshot(d), w.bytes()
            rc = sh.close()
            if rc != 0:
                raise Violation("the shell exits with %s" % rc)
            verify(w, m, ["exit"], before, snapshot(d), b0, None, "leaving the shell", extra=[os.path.relpath(hist, d)])
        obs.case((layout, n, sorted(m.pw)), changed > 0 and kept > 0,
                 {"layout": layout, "session_commands": n, "changed": changed, "left_alone": kept})


def fresh(rng, obs, kind):
    """set-primary creating a storage where there is none."""
    with Scratch() as d:
        os.mkdir(d + "/cwd")
        os.mkdir(d + "/tmp")
        rel = {"nested": "a/b c/d/storage.json", "here": "storage.json", "dotdot": "x/../storage.json"}[kind]
        if kind == "dotdot":
            os.mkdir(d + "/cwd/x")
        arg = rng.choice([rel, d + "/cwd/" + rel, "./" + rel])
        real = os.path.normpath(d + "/cwd/" + rel)
        env = {"HOME": d + "/cwd", "TMPDIR": d + "/tmp"}
        bad = rng.random() < .5
        if bad:  # refused first: nothing may appear
            dlg = rng.choice([[(P_NEW, "short")], [(P_NEW, PRIMARY), (P_REPEAT, PRIMARY + "x")], [(P_NEW, None)],
                              [(P_NEW, PRIMARY), (P_REPEAT, None)], [(P_NEW, "")]])
            before = snapshot(d)
            r = cli.run(arg, ["set-primary"], dlg, cwd=d + "/cwd", env=env)
            if r.rc == 0 or changes(before, snapshot(d)):
                raise Violation("a refused set-primary %r: %r, changed %r" % (dlg, r, changes(before, snapshot(d))))
            r = cli.run(arg, ["list"], [], cwd=d + "/cwd", env=env)
            if r.rc == 0 or r.unmet or changes(before, snapshot(d)):
                raise Violation("list without a storage: %r, changed %r" % (r, changes(before, snapshot(d))))
        r = cli.run(arg, ["set-primary"], [(P_NEW, PRIMARY), (P_REPEAT, PRIMARY)], cwd=d + "/cwd", env=env)
        if r.rc != 0:
            raise Violation("set-primary at %r fails: %r" % (arg, r))
        files = [k for k, v in snapshot(d).items() if v[0] != "dir"]
        if files != [os.path.relpath(real, d)]:
            raise Violation("set-primary at %r creates %r" % (arg, files))
        ref.read_storage(open(real).read(), PRIMARY)
        obs.case((kind, arg == rel, bad), True, {"created": arg, "refused_before": bad})
        obs.count("storages_created")


def nothing(rng, obs, where):
    """Commands on a storage which does not exist, in one go or in a shell, leave nothing behind."""
    with Scratch() as d:
        os.mkdir(d + "/home")
        os.mkdir(d + "/cwd")
        os.mkdir(d + "/tmp")
        env = {"HOME": d + "/home", "TMPDIR": d + "/tmp"}
        if where == "xdg":
            env["XDG_CONFIG_HOME"] = d + "/home/my config"
        if where == "config":
            os.mkdir(d + "/home/.config")
        arg = {"given": d + "/s/storage.json", "relative": "s/storage.json"}.get(where)
        before = snapshot(d)
        for words in (["list"], ["add", "a.com", "me"], ["show", "a.com", "me"], ["alias", "a.com", "b.com"], ["alias", "-r", "a.com"],
                      ["notes", "-s", "a.com", "me"], ["add-stored", "-c", "a.com", "me"], ["remove", "a.com", "me"], ["set-primary"]):
            r = cli.run(arg, words, [] if words != ["set-primary"] else rng.choice([[(P_NEW, None)], [(P_NEW, "abc")]]), cwd=d + "/cwd", env=env)
            ch = changes(before, snapshot(d))
            if r.rc == 0 or r.unmet or ch:
                raise Violation("%r without a storage (%s): %r, changed %r" % (words, where, r, ch))
            obs.count("commands_without_storage")
        with cli.Proc((["-c", arg] if arg else []) + ["--stdin-passwords", "shell"], cwd=d + "/cwd", env=env) as p:
            for ln in ("list", "remove a.com me", "exit"):
                p.line(ln)
            rc = p.finish()
        if rc not in (0, 1) or not p.err:
            raise Violation("a shell without a storage (%s): exit status %s, %r" % (where, rc, p.err[-300:]))
        ch = {k: v for k, v in changes(before, snapshot(d)).items() if "hist" not in k}
        # the history of the shell may live there
        ch = {k: v for k, v in ch.items() if v[0] or not v[1] or v[1][0] != "dir" or not any("hist" in x for x in snapshot(d))}
        if ch:
            raise Violation("a shell without a storage (%s) leaves %r" % (where, ch))
        obs.case((where,), True, {"no_storage": where})


def main():
    common.build_cli()
    r = Runner("C04", 900 if common.THOROUGH else 100)
    m = 25 if common.THOROUGH else 1
    r.run(oneshot, [(l, 22) for l in LAYOUTS] * m + [("plain", 22)] * (3 * m), "one process per command")
    r.run(session, [(l, 120) for l in LAYOUTS if l not in ("default", "xdg")] * m, "sessions")
    r.run(fresh, [(k,) for k in ("nested", "here", "dotdot")] * (5 * m), "creation")
    r.run(nothing, [(k,) for k in ("default", "xdg", "config", "given", "relative")] * (2 * m), "no storage")
    return finish(r, "exploration", RULE,
                  ["changes outside the scratch tree (which holds the home, working, temporary and storage directories) are not seen",
                   "listing may rewrite the file to drop site records that hold nothing"], 10)
