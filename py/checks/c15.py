"""C15: the shell does what the same commands do one by one, survives their failures, and its history holds no secrets."""
import os, re, stat
import cli, common, gen, ref, term
from cli import P_CODE, P_NOTES, P_OVERWRITE, P_PRIMARY, P_STORED
from common import Runner, Scratch, finish, Violation

RULE = ("the same random command sequences (all commands, succeeding and failing, with dialogues, quoted in all Bourne shell "
        "styles) run in processes of their own and in shell sessions with locks and restarts, starting from equal storages; "
        "after every command the outputs, messages and decrypted storages have to be equal. Histories are searched for "
        "everything typed at prompts or shown, and keep the lines of several sessions, at their default place as well. Non-trivial: a command which printed or changed something in both worlds.")

SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_/:@=*?~$;|&<>(){}[]!#%^+,`")


def quote(rng, w):
    """One word in a random quoting style."""
    def single(x):
        return "'" + x + "'"

    def double(x):
        return '"' + "".join("\\" + c if c in '"\\$`' and (c in '"\\' or rng.random() < .5) else c for c in x) + '"'

    def back(x):
        return "".join(c if c in SAFE and rng.random() < .9 else "\\" + c for c in x)

    if not w:
        return rng.choice(["''", '""'])
    k = rng.randrange(6)
    if k == 0 and all(c in SAFE for c in w):
        return w
    if k == 1 and "'" not in w:
        return single(w)
    if k == 2:
        return double(w)
    if k == 3:
        return back(w)
    if k == 4:  # pieces
        i = rng.randrange(len(w) + 1)
        return "".join(rng.choice([double, back] + ([single] if "'" not in x else []))(x) for x in (w[:i], w[i:]) if x)
    return cli.shell_quote(w)


def command_line(rng, words):
    sep = lambda: rng.choice([" ", " ", " ", "  ", "\t", " \t "])
    out = rng.choice(["", "", " ", "\t"])
    for i, w in enumerate(words):
        out += (sep() if i else "") + quote(rng, w)
    return out + rng.choice(["", "", " "])


TEXTS = [" ", "me ", " me", "me\t", "\tme", "a  b", "me\u00a0", "\ufeffme", "me\x01", "x" * 300, "\u3000"]


def odd(rng):
    """Any word which is no option and none of the words with a meaning in here."""
    while True:
        t = rng.choice([gen.text(rng), gen.text(rng) + rng.choice([" ", "\t", "\\", "'", '"']), rng.choice(TEXTS)])
        if not t.startswith("-") and t not in ("1", "2", "8", "99", "x"):
            return t


ODD_SITES = ["a.com", "b.com", "www.a.com", "al.com", "it's", "quo\"te", "back\\slash", "my site", "*", "$HOME", "a b\tc", "`id`", "\u00fcn\u00ef", "semi;colon",
             "new|pipe", "#hash", "~", "\\", "'", "\"", "x\\'y", "new.com"]


def command(rng, secrets):
    s = rng.choice(ODD_SITES[:6] if rng.random() < .6 else ODD_SITES)
    n = rng.choice(["me", "you", "Jane Doe", "it's me", ""]) if rng.random() < .8 else odd(rng)
    if rng.random() < .1:
        s = odd(rng)
    R = rng.choice([[], [], ["-r", "2"], ["-r", "1"], ["--revision=2"]])
    t = "Secret-" + gen.token(rng)
    k = rng.randrange(17)
    if k < 3:
        return ["add"] + R + rng.choice([["-y"], []]) + rng.choice([[], ["-l", "8"], ["-wu"], ["-l", "99"], ["-wuds"]]) + [s, n], {P_OVERWRITE: rng.choice(["y", "n"])}
    if k < 6:
        secrets.add(t)
        return ["add-stored"] + R + rng.choice([["-y"], []]) + [s, n], {P_OVERWRITE: rng.choice(["y", "n"]), P_STORED: t}
    if k == 6:
        return ["remove"] + R + [s, n], {}
    if k in (7, 8):
        return ["show"] + R + rng.choice([[], [], ["-q"]]) + [s, n], {}
    if k == 9:
        return ["notes"] + R + [s, n], {}
    if k == 10:
        secrets.add(t)
        return ["notes", "-s"] + R + [s, n], {P_NOTES: rng.choice([t, t + " \"x\" \\ ", ""])}
    if k in (11, 12):
        return ["list"] + rng.choice([[], ["-v"], ["-s", "-v"], ["-r"], ["-vr"]]) + rng.choice([[], [s], ["*", "m*"], [s, n]]), {}
    if k == 13:
        return ["alias", rng.choice(["al.com", "x.com", s]), rng.choice(["a.com", s])], {}
    if k == 14:
        return ["alias"] + rng.choice([[], ["-r"]]) + [rng.choice(["al.com", "x.com", s])], {}
    if k == 15:
        return rng.choice([["nosuch"], ["list", "a", "b", "c"], ["show", s], ["add", "--nosuch", s, n], ["remove"], ["alias"], ["add", s, n, "-l", "x"],
                           ["show", "-r"], ["", "list"]]), {}
    return ["add-stored", "-c", "-y", s, n], {P_CODE: "CODE " + t}


def resolve(rng, words, dlg, ctx, exists):
    """The dialogue that will come up, as pairs."""
    out = []
    if P_OVERWRITE in dlg and "-y" not in words and exists:
        out.append((P_OVERWRITE, dlg[P_OVERWRITE]))
        if dlg[P_OVERWRITE] == "n":
            return out
    if P_STORED in dlg:
        out.append((P_STORED, dlg[P_STORED]))
    if P_CODE in dlg:
        code = ref.make_code(dlg[P_CODE][5:], ctx.salt, ctx.key)
        ctx.codes |= set(code.split("\n"))
        if rng.random() < .2:
            out += [(P_CODE, "GARBAGE-GARBAGE-GARBAGE-GARBAGE-GARBAGE"), (P_CODE, "")]
        else:
            out += [(P_CODE, x) for x in code.split("\n")]
    return out


ROW = re.compile(r"^        ([A-Z2-9]{4}-[A-Z2-9]{4}-[A-Z2-9]{4}:[A-Z2-9]{4}-[A-Z2-9]{4}-[A-Z2-9]{4})$")


def normal(text, primary, ctx):
    """Output with recovery codes replaced by what they hold."""
    out, code = [], []
    for ln in text.decode("utf-8", "replace").split("\n") + [None]:
        m = ROW.match(ln) if ln is not None else None
        if m:
            code.append(m.group(1))
            ctx.codes.add(m.group(1))
            continue
        if code:
            try:
                out.append("CODE FOR %r" % ref.read_code("\n".join(code), primary))
            except ref.CodeError as e:
                out.append("INVALID CODE %s" % e)
            code = []
        if ln is not None:
            out.append(ln)
    return "\n".join(out)


class Ctx:
    pass


def plain(path, primary):
    try:
        p = ref.read_storage(open(path, "rb").read().decode(), primary)
    except (ref.FormatError, UnicodeDecodeError) as e:
        raise Violation("the storage is not readable: %s" % e)
    return p.sites, p.passwords


def twins(rng, obs, n):
    primary = "twin primary " + gen.token(rng)
    with Scratch() as d:
        es = [dict(type="stored", site="a.com", name="me", revision="", password="Secret-" + gen.token(rng), notes="Secret-" + gen.token(rng)),
              dict(type="stored", site="b.com", name="you", revision="2", password="Secret-" + gen.token(rng)),
              dict(type="generated2", site="a.com", name="you", revision="", length=12, **{c: True for c, _ in ref.CLASSES})]
        text, hs, key, salt = ref.build_storage(primary, {"a.com": None, "b.com": None, "al.com": "a.com", "gone.com": None}, es)
        ctx = Ctx()
        ctx.salt, ctx.key, ctx.codes = salt, key, set()
        secrets = {primary} | {e["password"] for e in es if "password" in e} | {es[0]["notes"]}
        a, b = d + "/a", d + "/b"
        for p in (a, b):
            open(p, "w").write(text)
        hist = d + "/history.txt"
        typed = []
        sh = cli.Shell(b, primary, hist, cwd=d)
        done = []
        try:
            for i in range(n):
                words, dlg = command(rng, secrets)
                before = plain(a, primary)
                site = next((w for w in words[1:] if not w.startswith("-") and w not in ("2", "1", "8", "99")), "")
                # does the target exist, according to the file
                norm = site[4:] if site.startswith("www.") else site
                norm = before[0].get(norm) or norm
                rev = "2" if "2" in words or "--revision=2" in words else ""
                exists = (norm, words[-1], rev) in before[1]
                pairs = resolve(rng, words, dlg, ctx, exists)
                extra = [(P_NOTES, dlg[P_NOTES])] if P_NOTES in dlg and exists else []
                if words[0] == "add" and ("-wuds" in words or "99" in words or "x" in words[-1:] or "--nosuch" in words) or len(words) < 3 and words[0] == "add":
                    pairs = []
                if words[0] in ("add",) and words[-1] == "x":
                    pairs = []
                pairs += extra
                # in a process of its own
                r = cli.run(a, words, [(P_PRIMARY, primary)] + pairs, cwd=d)
                if r.panicked():
                    raise Violation("%r crashes: %r" % (words, r))
                out1 = r.out[len(P_PRIMARY):] if r.out.startswith(P_PRIMARY) else r.out
                # in the shell
                line = command_line(rng, words)
                done.append(line)
                asked = r.out.startswith(P_PRIMARY)
                dialogue = list(pairs) if asked else []
                if asked and not sh.unlocked:
                    dialogue.insert(0, (P_PRIMARY, primary))
                    sh.unlocked = True
                typed.append(line)
                try:
                    out2, err2, unmet = sh.cmd_raw(line, dialogue)
                except Violation as v:
                    v.what = "after %r in a shell: %s; by itself: %r" % (done[-5:], v.what, r)
                    raise
                if out2.startswith(P_PRIMARY):
                    out2 = out2[len(P_PRIMARY):]
                what = "%r, typed as %r" % (words, line)
                syntax = not asked and r.rc == 2
                n1, n2 = normal(out1, primary, ctx), normal(out2, primary, ctx)
                if n1 != n2:
                    raise Violation("%s prints %r in a shell and %r by itself (messages %r and %r)" % (what, n2[-800:], n1[-800:], err2[-300:], r.err[-300:]))
                if syntax:
                    if not err2.strip():
                        raise Violation("%s is no valid command, but the shell says nothing" % what)
                elif r.err.strip() != err2.strip():
                    raise Violation("%s reports %r in a shell and %r by itself" % (what, err2[-500:], r.err[-500:]))
                if (unmet is None) != (r.unmet is None) and asked:
                    raise Violation("%s: the dialogues differ: %r %r" % (what, unmet, r.unmet))
                pa, pb = plain(a, primary), plain(b, primary)
                if pa != pb:
                    raise Violation("%s leaves different storages behind: %r in the shell, %r by itself (of %r)" % (
                        what, {k: v for k, v in list(pb[0].items()) + list(pb[1].items()) if (pa[0] | pa[1]).get(k, 0) != v},
                        {k: v for k, v in list(pa[0].items()) + list(pa[1].items()) if (pb[0] | pb[1]).get(k, 0) != v}, done[-6:]))
                obs.case((words, pairs), bool(out1.strip()), {"typed": line, "printed": n1[:80], "message": r.err.decode("utf-8", "replace")[:80]})
                obs.count("commands compared")
                if r.rc:
                    obs.count("failures survived")
                k = rng.randrange(14)
                if k == 0:
                    sh.lock()
                    typed.append("lock")
                elif k == 1:
                    line = rng.choice(["set-primary", "set-primary -y", "shell", "shell -s x", "'unbalanced", "list \"x", "add 'a", "!!", "!1", "!add", "!-1", "!list", "^a^b", "; list", "list; list a b", "list a b | cat", "list a b > x", "&", "exit now", "exit;", "lock;", "lock now",
                                       "QUIT", "quit", "Exit", "EXIT", "\\", "add a.com me \\", "history", "clear", "?", "cd ..", "sh -c 'echo x > y'", "-h x", "--storage x list", "-c x list -v", "-c b add a.com me -y", "--storage=b remove a.com me", "-cx show a.com me", "--storage x --wait list",
                                       "list -c x", "--stdin-passwords list x y z", "-w list", "unlock", "save", "add", "show a.com", "alias", "help", "help list", "", "   "])
                    typed.append(line)
                    raw = open(b, "rb").read()
                    out, err, _ = sh.cmd_raw(line)
                    if line.strip() and not line.startswith("help") and not err.strip():
                        raise Violation("%r in a shell says nothing: %r" % (line, out))
                    if out.strip() and line.strip() and not line.startswith("help"):
                        raise Violation("%r in a shell prints %r besides the mistake" % (line, out[-400:]))
                    if P_PRIMARY in out or cli.P_NEW in out or open(b, "rb").read() != raw:
                        raise Violation("%r in a shell does something: %r" % (line, out))
                    obs.count("lines refused in shells")
                elif k == 2:
                    rc = sh.close()
                    typed.append("exit")
                    if rc != 0:
                        raise Violation("exit ends the shell with status %s" % rc)
                    check_history(hist, typed, secrets | ctx.codes)
                    obs.count("sessions")
                    sh = cli.Shell(b, primary, hist, cwd=d)
            if rng.random() < .5:
                rc = sh.close()
                typed.append("exit")
            else:
                rc = sh.p.finish()
            if rc != 0:
                raise Violation("the shell ends with status %s" % rc)
            check_history(hist, typed, secrets | ctx.codes)
            obs.count("sessions")
        finally:
            sh.p.kill()
        left = sorted(set(os.listdir(d)) - {"a", "b", "history.txt"})
        if left:
            raise Violation("files appear: %r" % left)


SPECIAL = ["~", "~/a", "~/", "~root", "~+", "!!", "!1", "!a", "a!", "^a^b", ";", "a;", ";a", "a;b", ";;", "&", "a&", "&&", "|", "||", ">", ">x", "2>x", "<x",
           "<<x", "{a,b}", "{a", "a=b", "A=b", "#", "#c", "a#b", "$", "$x", "${x}", "$HOME", "$(x)", "$((1))", "`x`", "\\n", "\\t", "\\x41", "\\", "\\\\", "a\\",
           "%s", "%", "*", "?", "[a]", "a*", "exit", "lock", "help", "list", "shell", "set-primary", "quit", "EXIT", "'", '"', "''", '""', "'a'", '"a"', "a'b\"c",
           "@file", "@", "file:x", "http://a.com/?x=1&y=2#z", "a,b", "(a)", "(", ")", ".", "..", "./a", "/", "/etc", "C:\\x", "a\tb", "\u00a0", "\ufeff", "\u2028",
           "\x01", "\x1b[A", "\x7f", "\x15", "\x04", "\x16", "null", "-", "--", "-h", "--help", "-V", "--version", "-y", "--color", "-r", "+x", "a:b", "0", "\u202e"]


def exact_words(rng, obs, n):
    """Whatever a word looks like and however it is quoted, the command gets exactly this word."""
    primary = "words primary"
    with Scratch() as d:
        text, hs, key, salt = ref.build_storage(primary, {"a.com": None}, [dict(type="stored", site="a.com", name="me", revision="", password="p")])
        path = d + "/s"
        open(path, "w").write(text)
        want = {("a.com", "me", "")}
        with cli.Shell(path, primary, d + "/h", cwd=d, env={"HOME": d, "x": "expanded"}) as sh:
            sh.cmd(["show", "a.com", "me"])
            for _ in range(n):
                w = lambda: "".join(rng.sample(SPECIAL, rng.choice([1, 1, 1, 2]))) + rng.choice(["", "", "", " ", "a", gen.text(rng, 0, 4)])
                site, name, rev = w(), w(), w() if rng.random() < .4 else ""
                if rng.random() < .3:
                    site = "plain.com"
                norm = site[4:] if site.startswith("www.") else site
                words = ["add", "-y", "-wud"] + (["--revision=" + rev] if rev else []) + ["--", site, name]
                line = command_line(rng, words)
                out, err, unmet = sh.cmd_raw(line)
                what = "%r, typed as %r" % (words, line)
                if b"Password added." not in out:
                    raise Violation("%s prints %r %r in a shell" % (what, out[-300:], err[-300:]))
                k = norm, name, ref.norm_rev(rev)
                got = set(ref.read_storage(open(path).read(), primary).passwords)
                if got != want | {k}:
                    raise Violation("%s adds %r in a shell instead of %r" % (what, sorted(got - want), k))
                obs.case(line, True)
                obs.count("words which got through as they are", 3)
                if rng.random() < .2 and site == norm and site not in ("plain.com", "a.com"):
                    # shown as they are as well
                    out, err, _ = sh.cmd_raw(command_line(rng, ["list", "--", "plain.com" if "*" in site or "?" in site else site]))
                    if not err and (b"    %s (" % name.encode() not in out) != ("*" in site or "?" in site):
                        raise Violation("after %s list prints %r" % (what, out))
                words = ["remove"] + (["-r", rev] if rev and not rev.startswith("-") else ["--revision=" + rev] if rev else []) + ["--", "www." + norm, name]
                line = command_line(rng, words)
                out, err, _ = sh.cmd_raw(line)
                if k in want:
                    want.discard(k)
                if b"Password removed." not in out or set(ref.read_storage(open(path).read(), primary).passwords) != want:
                    raise Violation("%r, typed as %r, prints %r %r in a shell" % (words, line, out[-300:], err[-300:]))
            rc = sh.close()
            if rc != 0:
                raise Violation("the shell ends with status %s" % rc)


EXPANSIONS = ["!!", "!-1", "!1", "!2", "!add", "!a", "!?add?", "!", "!$", "!*", "!!:p", "^y^z", "^x^y^", "fc", "fc -s", "r", "redo", "repeat", "again", ".", "..", "%1", "%%", "$_", "$!", "!0",
              "-", "--", "\x1b[A", "\x10", "\x12add", "\x0f", ":1", "@1", "1", "0", "y", "yes", "-y", "\t", "a", "ad", "add", "undo", "redo", ";", ";;", "&&", "|", "&", "#!!", "!#", "time", "watch", "sudo !!"]


def expansions(rng, obs, n):
    """Lines which repeat or change the previous command elsewhere. Nothing may come between the command and this line."""
    primary = "expansion primary"
    with Scratch() as d:
        path, hist = d + "/s", d + "/h"
        open(path, "w").write(ref.build_storage(primary, {"a.com": None}, [dict(type="stored", site="a.com", name="me", revision="", password="p")])[0])
        with cli.Proc(["--stdin-passwords", "-c", path, "shell", "-s", hist], cwd=d, env={"HOME": d}) as p:
            def sent(line, *want):
                p.line(line)
                for w in want:
                    if isinstance(w, tuple):
                        if p.expect(w[0]) is None:
                            raise Violation("%r in a shell: %r missing" % (line, w[0]), stdout=repr(p.out[-500:]), stderr=repr(p.err[-500:]))
                        p.line(w[1])
                    elif p.expect(w) is None:
                        raise Violation("%r in a shell: %r missing" % (line, w), stdout=repr(p.out[-500:]), stderr=repr(p.err[-500:]))
                while p._pump(0.02):
                    pass
                p.pos = len(p.out)
            if p.expect(b"Enter a command") is None:
                raise Violation("the shell does not start: %r" % p.err[-400:])
            sent("show a.com me", (P_PRIMARY, primary), b"Password retrieved.")
            todo = rng.sample(EXPANSIONS, len(EXPANSIONS))[:n]
            for i, line in enumerate(todo):
                k = rng.randrange(3)
                if k == 0:
                    before = "add x%d.com y" % i
                    sent(before, b"Password added.")
                elif k == 1:
                    before = "list a.com"
                    sent(before, b"me (stored)")
                else:
                    before = "remove a.com nobody%d" % i
                    e = p.epos = len(p.err)
                    p.line(before)
                    if p.expect(b"No such value", "err") is None:
                        raise Violation("%r in a shell says nothing" % before, stderr=repr(p.err[-500:]))
                raw = open(path, "rb").read()
                while p._pump(0.01):
                    pass
                o, e = len(p.out), len(p.err)
                p.epos = e
                p.line(line)
                mark = b"nosuchcommand%dx" % i
                p.line(mark)
                if p.expect(mark, "err") is None:
                    raise Violation("%r after %r in a shell: the next line is not seen as a command" % (line, before), stdout=repr(p.out[o:][-500:]), stderr=repr(p.err[e:][-500:]))
                while p._pump(0.01):
                    pass
                p.pos = len(p.out)
                if p.out[o:].strip() or open(path, "rb").read() != raw:
                    raise Violation("%r after %r in a shell does something: %r" % (line, before, p.out[o:][-500:]), stderr=repr(p.err[e:][-500:]))
                if line.strip() and not line.startswith("#") and p.err[e:].count(b"SUBCOMMAND") + p.err[e:].count(b"rror") < 2:
                    raise Violation("%r after %r in a shell says nothing" % (line, before), stderr=repr(p.err[e:][-900:]))
                p.epos = len(p.err)
                obs.case(("expansion", before, line), True)
                obs.count("lines that repeat nothing")
            rc = p.finish()
            if rc != 0:
                raise Violation("the shell ends with status %s" % rc)


HARMLESS = ["help", "help list", "help add", "help alias", "help 'show'", "list --nosuch", "add", "nosuch word", "nosuch \u00fcml\u00e4ut", "lock", "alias", "show a.com",
            "set-primary", "shell", "'unbalanced", "-c x list", "#comment", "LIST", "notes"]


def keeping(rng, obs, n):
    """What was typed in a session is there in the next ones, for the user to recall, wherever the history is kept."""
    with Scratch() as d:
        home = d + "/home"
        os.mkdir(home)
        env = {"HOME": home, "TERM": "xterm"}
        if rng.random() < .4:
            env["XDG_CONFIG_HOME"] = d + rng.choice(["/config", "/home/.conf", "/some where/c"])
        primary = "primary " + gen.token(rng)
        # the directory of the default storage is the one of the default history
        r = cli.run(None, ["set-primary", "-y"], [(cli.P_NEW, primary), (cli.P_REPEAT, primary)], env=env, cwd=d)
        storage = [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]
        if r.rc or len(storage) != 1:
            raise Violation("set-primary without a path: %r, files %r" % (r, storage))
        storage = storage[0]
        own = rng.random() < .5
        args = ["shell"] + (["-s", d + "/my history"] if own else [])
        if rng.random() < .3:
            args = ["-c", storage] + args
        typed = []
        for i in range(n):
            lines = [rng.choice(HARMLESS + ["word %s" % gen.token(rng)]) for _ in range(rng.randrange(1, 9))] + ["last word %s" % gen.token(rng)]
            with cli.Proc(args, env=env, cwd=d) as p:
                for line in lines:
                    p.line(line)
                if rng.random() < .5:
                    p.line("exit")
                    lines = lines + ["exit"]
                rc = p.finish()
            if rc != 0:
                raise Violation("a shell with %r ends with %r" % (args, rc), stderr=repr(p.err[-500:]))
            typed += lines
            if b"istory" in p.err and (i or b"ailed" in p.err.replace(b"Did not load", b"")):
                raise Violation("session %d of a shell with %r complains about the history: %r" % (i + 1, args, [x for x in p.err.split(b"\n") if b"istory" in x]))
            new = [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if os.path.join(a, f) != storage]
            if len(new) != 1 or own and new != [d + "/my history"] or not own and os.path.dirname(new[0]) != os.path.dirname(storage):
                raise Violation("a shell with %r (environment %r) leaves the files %r besides the storage %r" % (args, env, new, storage))
            check_history(new[0], typed, set())
            kept = open(new[0]).read().split("\n")
            want = [t for k, t in enumerate(typed) if t.startswith("last word")][-6:]
            if [x for x in kept if x in want] != want:
                raise Violation("after %d sessions the history holds %r, not %r in this order" % (i + 1, [x for x in kept if x in want], want))
            obs.case((args, env, lines), i > 0, {"arguments": args, "session": i + 1, "lines kept": len(kept)} if i < 2 else None)
            obs.count("sessions keeping their lines")
        # recalled at a terminal
        with term.Term(args, env=env, cwd=d) as t:
            t.expect(b"pfp> ")
            last = next(x for x in reversed(typed) if x.startswith("last word"))
            for _ in range(2 if typed[-1] == "exit" else 1):
                t.type(b"\x1b[A")
            if not t.expect(last.encode()):
                raise Violation("the arrow key does not bring %r back in a shell with %r: %r" % (last, args, t.screen[-300:]))
            t.type("\r")
            t.expect(b"pfp> ")
            t.type("exit\r")
            rc = t.wait()
        if rc != 0 or b"'last'" not in t.screen and b"last" not in t.screen:
            raise Violation("a recalled line ends the shell with %r: %r" % (rc, t.screen[-300:]))
        obs.count("lines recalled at a terminal")


def check_history(path, typed, secrets):
    data = open(path, "rb").read()
    for s in secrets:
        for x in (s, s.strip(), s.replace("\\", "\\\\")):
            if len(x) > 6 and x.encode() in data:
                raise Violation("the shell history holds %r, which was typed at a prompt or shown" % s, history=repr(data[-3000:]))
    lines = set(data.decode("utf-8", "replace").split("\n"))
    # lines shown in order; duplicates and blank ones may be left out, the newest ones have to be there
    missing = [t for t in typed[-20:] if t.strip() and t == t.strip() and "\\" not in t and t not in lines and not t.startswith(" ")]
    if missing:
        raise Violation("the shell history does not hold the command lines %r" % missing, history=repr(data[-3000:]))


def main():
    common.build_cli()
    r = Runner("C15", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(exact_words, [(150,)] * (16 * m), "words")
    r.run(keeping, [(4,)] * (8 * m), "histories")
    r.run(expansions, [(len(EXPANSIONS),)] * (3 * m), "expansions")
    r.run(twins, [(28,)] * (24 * m), "twins")
    return finish(r, "exploration", RULE,
                  ["command lines themselves go to the history as typed: secrets are typed at prompts, not on command lines",
                   "usage errors only have to be reported in both worlds, not in the same words"], 100)
