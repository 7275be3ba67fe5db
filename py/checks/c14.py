"""C14: whatever the arguments and the input are, a command ends by itself, never crashes and tells honestly how it went."""
import os, re, subprocess, time
import cli, common, gen, ref, tree
from cli import P_PRIMARY
from common import Runner, Scratch, finish, Violation, Inconclusive

RULE = ("commands assembled from valid and hostile pieces (every option in every spelling, repeated, misplaced, unknown; values "
        "that are empty, huge, negative, not UTF-8, with control characters) run on storages of every kind with hostile "
        "input (nothing, ends in every place, random bytes, invalid UTF-8, NULs, megabyte lines, CRLF, closed or unreadable "
        "stdin), and in odd surroundings (no home, directories that are none, ...); shells are fed with random command lines. Observed: ends by itself, no crash, no flood; status 0 exactly "
        "with the command's success text and for entries that exist, a failure with a message; files changed only with a "
        "success report. Non-trivial: every distinct combination that ran.")

PRIMARY = "hostile primary"
COMMANDS = ["set-primary", "add", "add-stored", "remove", "show", "notes", "list", "alias"]
DONE = {"add": [b"Password added."], "add-stored": [b"Password added."], "remove": [b"Password removed."],
        "show": [b"Password retrieved.", "\u2588".encode(), "\u2580".encode()],
        "notes": [b"Notes stored.", b"Notes removed.", b"Notes for this password:", b"Currently no notes are stored"],
        "alias": [b"is an alias for", b"Alias added.", b"Alias removed."],
        "list": [b"Passwords for ", b"No matching passwords found."],
        "set-primary": [b"New primary password set for"]}
CHANGED = [b"Password added.", b"Password removed.", b"Notes stored.", b"Notes removed.", b"Alias added.", b"Alias removed.",
           b"New primary password set for"]
DECLINED = [b"already exists. Overwrite?", b"Continue?"]


def value(rng):
    k = rng.randrange(14)
    if k < 6:
        return rng.choice([b"a.com", b"b.com", b"me", b"you", b"al.com", b"www.a.com", b"*", b"2", b"1", b"new.com"])
    if k == 6:
        return rng.choice([b"", b" ", b"-", b"--", b"---", b"-x", b"--x=y", b"=", b"\t", b"\n", b"\r\n", b"\x1b[2J", b"\x7f"])
    if k == 7:
        return rng.choice([b"\xff", b"a\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"a.com\x80"])
    if k == 8:
        return rng.choice([b"x" * 200, b"www." * 500, b"y" * 100000, "\u00e4".encode() * 5000])
    if k == 9:
        return rng.choice([b"-1", b"0", b"3", b"25", b"4", b"24", b"16", b"99999999999999999999999", b"0x10", b"1e1", b"+5", b" 5", b"5.0"])
    if k == 10:
        return rng.choice(gen.SITES).encode()
    if k == 11:
        return rng.choice(gen.NAMES).encode()
    if k == 12:
        return bytes(rng.randrange(1, 256) for _ in range(rng.randint(1, 12)))
    return "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0x2fff), rng.randrange(0x1f300, 0x1f700)])) for _ in range(8)).encode()


FLAGS = [b"-y", b"--assume-yes", b"-r", b"--revision", b"-l", b"--length", b"-w", b"-u", b"-d", b"-s", b"--set", b"--show", b"-v", b"-q",
         b"--qrcode", b"-c", b"--recovery", b"--remove", b"--no-lower", b"--verbose", b"-rv", b"-wuds", b"-sv", b"-r2", b"-l8", b"-l=8",
         b"--length=8", b"--length=", b"--length=-5", b"-l-1", b"-l0", b"--length=25", b"--length=-99999999999999999999", b"--length=18446744073709551616", b"--revision=", b"-h", b"--help", b"-V", b"--version", b"--nosuch", b"-z", b"--", b"--assume-ye", b"-yy"]


FITTING = {"set-primary": [b"-y", b"--assume-yes"], "add": [b"-y", b"-y", b"-l", b"-r", b"-w", b"-u", b"-d", b"-s", b"-ys", b"--length=8", b"--length=-5", b"-l-1", b"--length=18446744073709551616"],
           "add-stored": [b"-y", b"-y", b"-r", b"-c", b"--recovery", b"-r2"], "remove": [b"-r", b"-r2", b"--revision=2"],
           "show": [b"-q", b"--qrcode", b"-r", b"-r2"], "notes": [b"-s", b"--set", b"-r2", b"-s"],
           "list": [b"-s", b"-v", b"-r", b"-rv", b"-sv", b"--show"], "alias": [b"-r", b"--remove"]}


def arguments(rng):
    """-> list of bytes, command or None if broken in the head"""
    if rng.random() < .04:
        return rng.choice([[], [b"nosuch"], [b"help"], [b"help", value(rng)], [b"--help"], [b"-V"], [value(rng)], [b"--"], [b"ADD", b"a", b"b"]]), None
    if rng.random() < .12:
        s, n = rng.choice([(b"a.com", b"long"), (b"a.com", b"longer"), (b"a.com", b"you"), (b"a.com", b"me"), (b"b.com", b"me"), (b"al.com", b"me"),
                           (b"no.com", b"x")])
        r = [b"-r", b"2"] if n == b"you" else []
        a = rng.choice([[b"show", b"-q", s, n] + r, [b"show", b"--qrcode", s, n] + r, [b"show", s, n] + r, [b"notes", s, n] + r,
                        [b"list", b"-svr", s], [b"list", b"-r", s, n], [b"remove", s, n] + r, [b"add", b"-y", s, n] + r, [b"alias", s],
                        [b"alias", b"-r", s], [b"alias", b"z.com", s], [b"alias", s, b"z.com"], [b"notes", b"-s", s, n] + r])
        return a, a[0].decode()
    c = rng.choice(COMMANDS)
    need = {"set-primary": 0, "list": rng.randrange(3), "alias": rng.choice([1, 2])}.get(c, 2)
    if rng.random() < .08:
        need = max(0, need + rng.choice([-1, 1, 5]))
    a = [value(rng) for _ in range(need)]
    if rng.random() < .5:  # likely to do something
        a = [rng.choice([b"a.com", b"b.com", b"al.com", b"new.com"]), rng.choice([b"me", b"you", b"x", b"long", b"longer"])][:need]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 6])):
        i = rng.randrange(len(a) + 1)
        f = rng.choice(FLAGS) if rng.random() < .25 else rng.choice(FITTING[c])
        a.insert(i, f)
        if f in (b"-r", b"--revision", b"-l", b"--length") and c not in ("alias", "list") and rng.random() < .8:
            a.insert(i + 1, rng.choice([b"2", b"1", b"16", value(rng)]))
    return [c.encode()] + a, c


def stdin_data(rng, cmd):
    k = rng.randrange(12)
    lines = []
    if cmd == "set-primary":
        head = rng.choice([[b"y", b"new primary", b"new primary"], [b"n"], [b"", b"x"], [b"y", b"new primary", b"other primary"], [b"y", b"short"],
                           [b"new primary", b"new primary"], [b"\xff", b"y"]])
        if rng.random() < .3:
            return b"\n".join(head)
        lines += head
    elif rng.random() < .85:
        lines += [rng.choice([b"wrong primary", b"x", b"", b"\xff\xfe"])] * rng.choice([0, 0, 0, 1, 2])
        lines.append(PRIMARY.encode())
    if cmd == "add-stored" and rng.random() < .4:
        # recovery codes given up in some way
        code = rng.choice([CODE, [x.lower() for x in CODE], CODE[:1] * 2 + CODE[1:]])
        lines += rng.choice([[], [b"y"]]) + [x.encode() for x in code[:rng.randint(0, len(code))]] + rng.choice([[], [b""], [b" "], [b"\t"], [b"  ", b"x"]])
    elif k < 4:
        lines += [rng.choice([b"y", b"n", b"some secret", b"", b"no", b"AAAA-BBBB"]) for _ in range(rng.randrange(4))]
    elif k == 4:
        lines.append(bytes(rng.randrange(256) for _ in range(rng.randint(1, 300))))
    elif k == 5:
        lines.append(b"z" * 1000000)
    elif k == 6:
        lines += [b"\0", b"\0\0secret\0", b"\x1b[A\x08\x7f"]
    elif k == 7:
        return b"\r\n".join(lines + [b"y", b"secret", b""])
    elif k == 8:
        lines += [b"\xff\xfe\xfd", b"y", b"\xc3\x28"]
    elif k == 9:
        lines += [b"y"] * 50
    elif k == 10:
        return b"\n".join(lines)[:-1]
    return b"\n".join(lines) + (b"\n" if rng.random() < .7 else b"")


KINDS = ["good"] * 12 + ["missing", "empty", "garbage", "dir", "newer", "damaged"]


def prepare(kind, path, text):
    if os.path.isdir(path) and not os.path.islink(path):
        os.rmdir(path)
    elif os.path.lexists(path):
        os.unlink(path)
    if kind == "good":
        open(path, "w").write(text)
    elif kind == "empty":
        open(path, "w")
    elif kind == "garbage":
        open(path, "wb").write(os.urandom(300))
    elif kind == "dir":
        os.mkdir(path)
    elif kind == "newer":
        open(path, "w").write(text.replace('"format": 3', '"format": 4'))
    elif kind == "damaged":
        open(path, "w").write(re.sub(r'"([^"]{60,})"', lambda m: '"' + m.group(1)[:-9] + '"', text))


def storage(rng):
    es = [dict(type="stored", site="a.com", name="me", revision="", password="pw", notes="note"),
          dict(type="stored", site="a.com", name="you", revision="2", password="p\u00e4"),
          dict(type="stored", site="a.com", name="long", revision="", password="L" * 2954),
          dict(type="stored", site="a.com", name="longer", revision="", password="7\u00e4" * 3000),
          dict(type="generated2", site="b.com", name="me", revision="", length=16, **{c: True for c, _ in ref.CLASSES})]
    return ref.build_storage(PRIMARY, {"a.com": None, "b.com": None, "al.com": "a.com"}, es, salt=b"hostile salt 16b", hs=b"h" * 32)


def state(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError):
        return None


def execute(argv, data, d, stdin=None):
    """Input all at once, then its end."""
    with cli.Proc(argv, cwd=d, env={"HOME": d + "/home", "XDG_CONFIG_HOME": d + "/home"}, stdin=stdin) as p:
        if stdin is None:
            import threading
            t = threading.Thread(target=lambda: (p.send(data), p.close_stdin()), daemon=True)
            t.start()
            end = time.time() + 100
            try:
                p._wait(lambda: False)
            except cli.Stalled:
                pass
            t.join(5)
        else:
            try:
                p._wait(lambda: False)
            except cli.Stalled:
                pass
        try:
            p.p.wait(30)
        except subprocess.TimeoutExpired:
            st, cpu = p._cpu()
            p.kill()
            raise Violation("still running 30 seconds after the end of input (state %s, %d ticks of CPU time)" % (st, cpu),
                            out=repr(p.out[-500:]), err=repr(p.err[-500:]))
        return p.p.returncode, p.out, p.err


def clap_panic(argv, rc, err):
    """The listed finding: the argument parser crashes on some arguments which are not UTF-8."""
    def bad(a):
        try:
            a.decode()
            return False
        except UnicodeDecodeError:
            return True
    return rc == 101 and b"unexpected invalid UTF-8 code point" in err and b"/clap-" in err and err.count(b"panicked at") == 1 and \
        any(bad(a) for a in argv)


def listed(rng, obs):
    with Scratch() as d:
        path = d + "/s"
        prepare("good", path, storage(rng)[0])
        argv = [b"-c", path.encode(), b"show", b"--nosuch", b"a.com", b"\xff"]
        rc, out, err = execute(argv, b"", d)
        if clap_panic(argv, rc, err):
            raise Violation("%r: crashes: %r" % (argv, err), signature="clap-panic-on-non-utf8-argument")
        judge("%r" % argv, "show", rc, out, err, None, None, obs)


def asks_picture(argv):
    pre = None
    for a in argv:
        if a == b"--":
            return False
        if a in (b"-q", b"--qrcode") and pre not in (b"-r", b"--revision", b"-c", b"--storage"):
            return True
        pre = a
    return False


def judge(what, cmd, rc, out, err, before, after, obs, argv=None):
    if rc not in (0, 1, 2) or b"panicked at" in err:
        raise Violation("%s: crashes with status %s: %r" % (what, rc, err[-500:]))
    said = [m for m in CHANGED if m in out]
    if before != after and not said and cmd not in ("list",):
        raise Violation("%s: changes the storage without saying so: rc %s %r %r" % (what, rc, out[-300:], err[-300:]))
    if said and before == after:
        raise Violation("%s: reports %r, but the storage did not change" % (what, said))
    if rc != 0:
        if not err.strip() and b"Next line of your recovery code" not in out:
            raise Violation("%s: fails with status %s, but without a message: %r" % (what, rc, out[-300:]))
        if before != after:
            raise Violation("%s: fails with status %s, but changes the storage" % (what, rc))
        if said:
            raise Violation("%s: fails with status %s, but reports %r" % (what, rc, said))
        obs.count("failures reported")
    elif cmd:
        help_ = b"USAGE:" in out or re.match(rb"^pfp-cli\S* \d", out)
        if cmd == "show" and not help_ and argv and asks_picture(argv) and not any(c.encode() in out for c in "\u2588\u2580\u2584"):
            raise Violation("%s: status 0, but no QR code: %r %r" % (what, out[-300:], err[-300:]))
        if not help_ and not any(m in out for m in DONE[cmd]) and not any(m in out for m in DECLINED):
            raise Violation("%s: status 0, but nothing was done: %r %r" % (what, out[-300:], err[-300:]))
        obs.count("help shown" if help_ else "successes reported")


def stale(path, text, after, out, what):
    """A success report comes with a storage that can be read."""
    if after is None:
        raise Violation("%s: reports success without leaving a storage" % what)
    for p in (PRIMARY, "new primary"):
        try:
            return ref.read_storage(after.decode(), p)
        except (ref.FormatError, UnicodeDecodeError) as e:
            last = e
    raise Violation("%s: reports success, but the storage is unreadable: %s" % (what, last))


def hostile(rng, obs, n):
    with Scratch() as d:
        text, hs, key, salt = storage(rng)
        path = d + "/s"
        os.mkdir(d + "/home")
        for _ in range(n):
            kind = rng.choice(KINDS)
            prepare(kind, path, text)
            argv, cmd = arguments(rng)
            data = stdin_data(rng, cmd)
            before = state(path)
            full = [b"--stdin-passwords", b"-c", path.encode()] + argv
            if rng.random() < .05:
                full = [b"-c", path.encode(), b"--stdin-passwords", b"-c", path.encode()] + argv if rng.random() < .5 else \
                    argv[:1] + [b"--stdin-passwords"] + argv[1:]
                cmd = None if full[0] != b"-c" else cmd
            what = "%r (storage %s) with input %r" % (full, kind, data[:200])
            rc, out, err = execute(full, data, d)
            after = state(path)
            if clap_panic(full, rc, err) and before == after:
                obs.count("listed finding met")
                continue
            judge(what, cmd, rc, out, err, before, after, obs, argv)
            if before != after and kind == "good":
                stale(path, text, after, out, what)
            obs.case((argv, kind, data), True, {"args": [repr(a)[:60] for a in argv], "storage": kind, "input": repr(data)[:80], "status": rc})
            if kind != "good":
                obs.count("on a storage which is " + kind)
            left = sorted(x for x in os.listdir(d) if x not in ("s", "home"))
            if left or os.listdir(d + "/home"):
                raise Violation("%s: files appear: %r" % (what, left + os.listdir(d + "/home")))


def odd_stdin(rng, obs):
    """Input that cannot be read at all."""
    with Scratch() as d:
        text = storage(rng)[0]
        path = d + "/s"
        os.mkdir(d + "/home")
        for how in ("null", "directory", "writeonly", "closed"):
            for argv in (["set-primary"], ["set-primary", "-y"], ["list"], ["add", "a.com", "me"], ["shell", "-s", d + "/home/h"], ["notes", "-s", "a.com", "me"],
                         ["add-stored", "-c", "n.com", "x"]):
                prepare("good", path, text)
                before = state(path)
                f = None
                full = ["--stdin-passwords", "-c", path] + argv
                what = "%r with stdin %s" % (argv, how)
                try:
                    if how == "closed":
                        with cli.Proc(["-c", 'exec "$@" <&-', "sh", common.CLI] + full, cwd=d, cli="/bin/sh") as p:
                            rc = p.finish()
                            out, err = p.out, p.err
                    else:
                        f = {"null": lambda: open("/dev/null"), "directory": lambda: os.open(d, os.O_RDONLY),
                             "writeonly": lambda: os.open(d + "/home/w", os.O_WRONLY | os.O_CREAT)}[how]()
                        rc, out, err = execute(full, b"", d, stdin=f)
                except Violation as v:
                    v.what = what + ": " + v.what
                    raise
                finally:
                    if f is not None:
                        os.close(f) if isinstance(f, int) else f.close()
                if rc not in (0, 1, 2) or b"panicked at" in err:
                    raise Violation("%s: crashes with status %s: %r" % (what, rc, err[-500:]))
                if state(path) != before:
                    raise Violation("%s: changes the storage" % what)
                if rc == 0 and argv[0] != "shell" and b"Continue?" not in out:
                    raise Violation("%s: status 0: %r %r" % (what, out, err))
                if rc != 0 and not err.strip():
                    raise Violation("%s: fails without a message" % what)
                obs.case((how, argv), True)
                obs.count("unreadable input")


def surroundings(rng, obs, n):
    """Odd homes, directories and variables: reported as far as they matter, and nothing else happens."""
    so = common.build_shim_path("outside")
    with Scratch() as d:
        text = storage(rng)[0]
        for i in range(n):
            w = os.path.join(d, "w%d" % i)
            os.makedirs(w + "/cwd")
            with open(w + "/file", "w"):
                pass
            odd = lambda: rng.choice([None, None, "", "relative", w + "/cwd/home", w + "/file", "/proc/nonexistent", "/dev/null", w + "/" + "n" * 300, "\udcff", w + "/\udcff", "~", "."])
            env = {"LD_PRELOAD": so, "OUTSIDE_PASSWD": "0", "HOME": odd()}
            for v in ("XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR", "XDG_CONFIG_DIRS", "TMPDIR"):
                if rng.random() < .4:
                    env[v] = odd()
            for v in ("LANG", "LC_ALL", "TERM", "RUST_BACKTRACE", "COLUMNS", "TZ"):
                if rng.random() < .2:
                    env[v] = rng.choice([None, "", "\udcff", "x" * 5000, "-1", "0", "%s%n", "1"])
            given = rng.random() < .5
            path = w + "/cwd/s"
            if given:
                with open(path, "w") as f:
                    f.write(text)
            cmd = rng.choice(["set-primary", "list", "add", "show", "alias", "notes", "remove", "add-stored", "shell", "shell"])
            words = [cmd] + ([] if cmd in ("set-primary", "list", "shell") else ["a.com"] if cmd == "alias" else ["a.com", "me"])
            if cmd in ("add", "add-stored", "set-primary"):
                words.insert(1, "-y")
            history = cmd == "shell" and rng.random() < .5
            if history:
                words += ["-s", w + "/cwd/h"]
            before = tree.snapshot(d)
            what = "%r%s with %r" % (words, " on a storage" if given else "", {k: v for k, v in env.items() if k not in ("LD_PRELOAD", "OUTSIDE_PASSWD")})
            with cli.Proc(["--stdin-passwords"] + (["-c", path] if given else []) + words, env=env, cwd=w + "/cwd") as p:
                p.send({"set-primary": "new primary\nnew primary\n", "shell": "exit\n", "add-stored": PRIMARY + "\nsecret\n"}.get(cmd, PRIMARY + "\n"))
                rc = p.finish()
                out, err = p.out, p.err
            obs.case((cmd, given, repr(sorted((k, str(v)) for k, v in env.items()))), True)
            obs.count("odd surroundings")
            if rc not in (0, 1) or b"panicked at" in err:
                raise Violation("%s: crashes with status %s: %r" % (what, rc, err[-500:]))
            if rc and not err.strip():
                raise Violation("%s: fails without a message" % what)
            changed = tree.changes(before, tree.snapshot(d))
            if given and (cmd != "shell" or history):
                # nothing but arguments and answers matters
                wanted = 1 if cmd == "alias" else 0
                if rc != wanted:
                    raise Violation("%s: status %s: %r %r" % (what, rc, out[-300:], err[-300:]))
                changed.pop("w%d/cwd/s" % i, None)
            elif rc == 0 and cmd == "set-primary":
                new = [k for k, v in changed.items() if v[1] and v[1][0] == "file"]
                if len(new) != 1 or not new[0].endswith("PfP/storage.json"):
                    raise Violation("%s: reports success, but creates %r" % (what, sorted(changed)))
                try:
                    ref.read_storage(open(os.path.join(d, new[0])).read(), "new primary")
                except ref.FormatError as e:
                    raise Violation("%s: reports success, but the storage is unreadable: %s" % (what, e))
                obs.count("created at a default location")
                continue
            elif rc == 0 and cmd != "shell":
                raise Violation("%s: succeeds without a storage: %r" % (what, out[-300:]))
            for k in list(changed):
                if k in ("w%d/cwd" % i, "w%d" % i) or history and k == "w%d/cwd/h" % i or cmd in ("shell", "set-primary"):
                    changed.pop(k)
            if changed:
                raise Violation("%s: changes %r" % (what, sorted(changed.items())))


EXISTING = [("a.com", "me", "1"), ("a.com", "you", "2"), ("a.com", "long", "1"), ("b.com", "me", "1"), ("al.com", "me", "1"), ("www.al.com", "you", "2")]
ABSENT = [("a.com", "you", "1"), ("a.com", "me", "2"), ("a.com", "Me", "1"), ("a.com", "", "1"), ("b.com", "you", "2"), ("no.com", "me", "1"), ("al.com", "he", "1"),
          ("", "", "1"), ("www.www.a.com", "me", "1"), ("A.com", "me", "1"), ("a.com", "me ", "1"), ("a.com", "me", "02"), ("a.com", "me", "01"), ("a.co", "me", "1")]


def absent(rng, obs, n):
    """Success is reported for entries and aliases which are there, failure for others; every flag in every place."""
    with Scratch() as d:
        text = storage(rng)[0]
        path = d + "/s"
        for _ in range(n):
            prepare("good", path, text)
            there = rng.random() < .4
            s, nm, r = rng.choice(EXISTING if there else ABSENT)
            R = rng.choice([["-r", r], ["-r" + r], ["--revision", r], ["--revision=" + r]]) if r != "1" or rng.random() < .3 else []
            words, dlg = rng.choice([(["show"], []), (["show", "-q"], []), (["notes"], []), (["notes"], []), (["notes", "-s"], ["new notes"]),
                                     (["notes", "--set"], [""]), (["remove"], []), (["alias"], []), (["alias", "-r"], [])])
            if words[0] == "alias":
                there = rng.random() < .5
                args = [rng.choice(["al.com", "www.al.com"] if there else ["a.com", "b.com", "no.com", "www.www.al.com", "", "Al.com", "al.co"])]
                R = []
            else:
                args = [s, nm]
            if "-q" in words and nm in ("long", "longer"):
                words = ["show"]
            argv = words[:1] + (words[1:] + R + args if rng.random() < .5 else args + R + words[1:])
            wrong = rng.choice([[], ["wrong one"], ["", "x"]])
            data = "\n".join(wrong + [PRIMARY] + dlg + [""]).encode()
            full = [b"--stdin-passwords", b"-c", path.encode()] + [x.encode() for x in argv]
            what = "%r on %s entry" % (argv, "an existing" if there else "a missing")
            before = state(path)
            rc, out, err = execute(full, data, d)
            after = state(path)
            judge(what, words[0], rc, out, err, before, after, obs, [x.encode() for x in argv])
            if (rc == 0) != there:
                raise Violation("%s: status %s: %r %r" % (what, rc, out[-300:], err[-300:]))
            if not there and any(m in out for m in DONE[words[0]] if m != b"Password retrieved."):
                raise Violation("%s: says it was done: %r %r" % (what, out[-300:], err[-300:]))
            obs.case((argv, wrong), True)
            obs.count("existing" if there else "missing")


TOKENS = ["list", "show", "add", "add-stored", "remove", "notes", "alias", "lock", "help", "shell", "set-primary", "a.com", "me", "al.com", "-s", "-r", "-v",
          "-q", "-y", "-l", "8", "--", "-c", "--help", "-h", "--version", "'", '"', "\\", "''", '""', "\\\n", "$(id)", "`id`", ";", "|", ">", "&", "#", "*",
          "?", "~", "!", "!!", "\x1b[A", "\x08", "\x07", "\0", "\u00e4", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "x" * 5000, "\t", " ", "=", "{}",
          "--wait", "--stdin-passwords", "--storage", "xexit", "-", "a.com me", "'a.com' \"me\"", "a'b", "a\\ b"]


CODE = ref.make_code("recovered secret", b"hostile salt 16b", ref.storage_key(PRIMARY, b"hostile salt 16b")).split("\n")
ANSWERS = [(cli.P_PRIMARY, [PRIMARY]), (cli.P_OVERWRITE, ["no", "y"]), (cli.P_STORED, ["typed secret"]), (cli.P_NOTES, ["typed notes", ""]),
           (cli.P_CODE, ["", " ", "\t "] + CODE)]


def settled(p):
    """Waits until the program waits for input."""
    n = 0
    end = time.time() + 60
    while n < 3 and time.time() < end and p.p.poll() is None:
        p.drained()
        p._pump(.001)
        n = n + 1 if p._cpu()[0] == "S" else 0
    while p._pump(0):
        pass


def line(rng, sh, ln):
    """Sends a line; whatever prompts come up are answered; returns when a following line was processed."""
    p = sh.p
    o = o0 = len(p.out)
    e0 = len(p.err)
    p.line(ln)
    for _ in range(30):
        settled(p)
        if p.p.poll() is not None:
            raise Violation("the session ends")
        for t, a in ANSWERS:
            if p.out[o:].rstrip(b" ()yN/").endswith(t.rstrip()):
                o = len(p.out)
                p.line(rng.choice(a))
                break
        else:
            m = sh._mark().encode()
            e = len(p.err)
            p.line(m)
            settled(p)
            if m in p.err[e:]:
                try:
                    if not ln.decode().strip() or any(ord(c) < 32 for c in ln.decode()):
                        return
                    said = p.out[o0:].replace(b"pfp> ", b"").strip() or p.err[e0:e].strip()
                except UnicodeDecodeError:
                    said = p.err[e0:e].strip()
                if not said:
                    raise Violation("nothing is said about it")
                return
    raise Violation("keeps asking: %r" % p.out[-600:])


def garbage_shell(rng, obs, n):
    """A session of random command lines; in the end it still has to work."""
    with Scratch() as d:
        text = storage(rng)[0]
        path = d + "/s"
        prepare("good", path, text)
        sent = []
        with cli.Shell(path, PRIMARY, d + "/h", cwd=d, env={"HOME": d, "XDG_CONFIG_HOME": d}) as sh:
            sh.cmd(["alias", "al.com"])
            for i in range(n):
                k = rng.randrange(10)
                if k == 0:
                    ln = bytes(rng.randrange(256) for _ in range(rng.randint(1, 60))).replace(b"\n", b"")
                elif k == 1:
                    ln = rng.choice([b"", b" ", b"\r", b"help", b"help add", b"help help", b"help nosuch", b"#", b"exit now", b"exit --force", b"lock x", b"lock",
                                     b"add-stored -c a.com x", b"add-stored -c new.com x", b"show -q a.com longer", b"add a.com me", b"notes -s a.com me"])
                else:
                    ln = rng.choice([" ", " ", ""]).join(rng.choice(TOKENS) for _ in range(rng.randint(1, 6))).encode().replace(b"\n", b"")
                if ln.split()[:1] == [b"exit"] and len(ln.split()) == 1:
                    ln = b"x" + ln
                sent.append(ln)
                try:
                    line(rng, sh, ln)
                except Violation as v:
                    rc = sh.p.finish()
                    v.what = "a shell given %r (after %r): %s; status %s, %r" % (ln[:500], sent[-4:-1], v.what, rc, sh.p.err[-600:])
                    raise
                obs.case(ln, True)
            sh.unlocked = True
            sh.p.pos, sh.p.epos = len(sh.p.out), len(sh.p.err)
            sh.lock()
            out, err, _ = sh.cmd(["add", "-y", "a.com", "after"])
            if b"Password added." not in out:
                raise Violation("a shell given %r does not work any more: %r %r" % (sent[-20:], out, err))
            # the last command does not matter, nor how the shell is left
            last = rng.choice([["show", "a.com", "nobody"], ["alias", "nothing.com"], ["remove", "a.com", "nobody"], ["nosuch"], ["list"], ["add", "x.com", "y", "-l", "99"]])
            sh.p.line(cli.shell_quote(last[0]) + "".join(" " + cli.shell_quote(x) for x in last[1:]))
            settled(sh.p)
            sent.append(" ".join(last).encode())
            rc = sh.close() if rng.random() < .5 else sh.p.finish()
            if rc != 0 or b"panicked at" in sh.p.err:
                raise Violation("a shell given %r ends with status %s: %r" % (sent[-20:], rc, sh.p.err[-500:]))
        try:
            if ("a.com", "after", "") not in ref.read_storage(open(path).read(), PRIMARY).passwords:
                raise Violation("after %r an entry is lost" % sent[-20:])
        except (ref.FormatError, UnicodeDecodeError) as e:
            raise Violation("storage unreadable after shell lines %r: %s" % (sent, e))
        obs.count("random shell lines", n)


def main():
    common.build_cli()
    common.build_shim("outside")
    r = Runner("C14", 900 if common.THOROUGH else 100)
    m = 60 if common.THOROUGH else 1
    r.run(listed, [()], "listed finding")
    r.run(odd_stdin, [()], "unreadable input")
    r.run(garbage_shell, [(60,)] * (40 * m), "random shells")
    r.run(surroundings, [(12,)] * (8 * m), "odd surroundings")
    r.run(absent, [(16,)] * (16 * m), "missing entries")
    r.run(hostile, [(14,)] * (80 * m), "hostile commands")
    return finish(r, "exploration", RULE,
                  ["output goes somewhere it can be written to (a closed or full output is not covered)",
                   "input is finite"], 300)
