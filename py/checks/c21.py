"""C21: programs working on one storage, or next to each other, at the same time do not spoil it for each other."""
import json, os, threading, time
import cli, common, gen, ref, tree
from cli import P_NEW, P_NOTES, P_OVERWRITE, P_PRIMARY, P_REPEAT, P_STORED
from common import Runner, Scratch, finish, Violation, Inconclusive
from model import Model
from store import Store

RULE = ("several shells, and many commands at once, work on the same storage file while readers poll it, with random delays before "
        "the file-changing calls, now and then a program being killed or the primary password being set anew; other programs work on "
        "storages next to it. Every content read is decrypted and must be exactly what one program saved (computed by a model per "
        "program); the reads and writes have to be those of a single register that is written as a whole (real-time order of the "
        "recorded intervals); every command must end as it would alone. Non-trivial: a case in which saves of different programs "
        "overlapped in time.")

SO = os.path.join(common.BUILD, "faultio.so")
PRIMARY, OTHER = "foobar primary", "another primary"
SITES = ["a.com", "b.com", "c.com"]


def initial(rng, entries):
    m = Model(PRIMARY)
    sites = {s: None for s in SITES}
    sites["al.com"] = "a.com"
    m.alias["al.com"] = "a.com"
    recs = []
    for i in range(entries):
        e = {"type": "stored", "site": SITES[i % 3], "name": "n%d" % i, "revision": "", "password": "pw-%d" % i,
             "notes": "note %d " % i * rng.choice([1, 20, 60])}
        recs.append(e)
        m.pw[(e["site"], e["name"], "")] = {"type": "stored", "password": e["password"], "notes": e["notes"]}
    return m, ref.build_storage(PRIMARY, sites, recs, salt=os.urandom(16), hs=os.urandom(32))[0]


def canon_model(m):
    out = set()
    for k, e in m.pw.items():
        out.add((k, e["type"], e.get("password"), e.get("length"), e.get("classes") and tuple(sorted(e["classes"])), e["notes"]))
    return frozenset(out), frozenset(m.alias.items())


def canon_file(data):
    """What a content of the file amounts to; None: nothing that opens."""
    for primary in (PRIMARY, OTHER):
        try:
            p = ref.read_storage(data.decode(), primary)
        except (ref.FormatError, UnicodeDecodeError):
            continue
        out = set()
        for k, e in p.passwords.items():
            cl = tuple(sorted(n for n, _ in ref.CLASSES if e.get(n))) if e["type"] != "stored" else None
            out.add((k, e["type"], e.get("password"), e.get("length"), cl, e.get("notes", "")))
        return (frozenset(out), frozenset((s, t) for s, t in p.sites.items() if t is not None)), primary
    return None


class Write:
    """A save: what it saves, when it began at the earliest, and when it was done at the latest."""

    def __init__(self, who, state, start, primary=PRIMARY):
        self.who, self.state, self.start, self.end, self.primary = who, state, start, None, primary


class Reader(threading.Thread):
    def __init__(self, path):
        super().__init__(daemon=True)
        self.path, self.stop, self.reads, self.missing = path, threading.Event(), [], False

    def run(self):
        last = None
        while not self.stop.is_set():
            t = time.monotonic()
            try:
                with open(self.path, "rb") as f:
                    data = f.read()
            except FileNotFoundError:
                data = b""
            e = time.monotonic()
            if data == last:
                self.reads[-1][2] = e      # still seen
                self.reads[-1][3] = t
            else:
                self.reads.append([t, e, e, t, data])
                last = data
            time.sleep(.0005)


def judge(obs, reads, writes, log):
    """Every read returns a value some write wrote, not yet replaced for certain before the read, and already begun."""
    byval = {}
    for w in writes:
        byval.setdefault((w.state, w.primary), []).append(w)
    known = {}
    for first, first_end, last_end, last_start, data in reads:
        if data not in known:
            known[data] = canon_file(data)
        c = known[data]
        if c is None:
            raise Violation("at some moment the storage file is nothing that opens: %d bytes, %r..." % (len(data), data[:60]), log=log[-60:])
        owners = byval.get(c)
        if not owners:
            near = min(writes, key=lambda w: len(w.state[0] ^ c[0][0]) + len(w.state[1] ^ c[0][1]))
            raise Violation("at some moment the storage file holds a state none of the programs saved; next to it is that of program %s, difference: %r" % (
                near.who, sorted(map(repr, (near.state[0] ^ c[0][0]) | (near.state[1] ^ c[0][1])))[:6]), log=log[-60:])
        for start, end in ((first, first_end), (last_start, last_end)):
            fits = [w for w in owners if w.start <= end]
            # replaced: another save lies entirely between this one and the read
            live = [w for w in fits if w.end is None or not any(o.start > w.end and o.end is not None and o.end < start for o in writes)]
            if not live:
                raise Violation("the storage file holds a state %s by program %s" % (
                    "which was already replaced, saved" if fits else "not yet saved", owners[0].who), log=log[-60:])
        obs.count("distinct contents judged")
        obs.case(("content", data), True)
    return {c for c in known.values()}


def overlapping(writes):
    ws = sorted((w for w in writes if w.end is not None and w.start >= 0), key=lambda w: w.start)
    return sum(1 for a, b in zip(ws, ws[1:]) if a.who != b.who and b.start < a.end)


def one(rng, m, me, i):
    """A random operation: words, dialogue, message, changed model (None: a query)"""
    k = rng.randrange(10)
    n = m.copy()
    mine = "p%d-%d" % (me, i)
    if k < 3:
        s = rng.choice(SITES)
        n.add_stored(s, mine, "secret " + mine)
        return ["add-stored", s, mine], [(P_STORED, "secret " + mine)], b"Password added.\n", n
    if k < 5:
        s = rng.choice(SITES)
        n.add(s, mine, "1", 4 + i % 20)
        return ["add", "-l", str(4 + i % 20), s, mine], [], b"Password added.\n", n
    if k < 6:
        x = rng.choice(sorted(m.pw))
        n.remove(*x)
        return ["remove"] + (["-r", x[2]] if x[2] else []) + [x[0], x[1]], [], b"Password removed.\n", n
    if k < 8:
        x = rng.choice(sorted(m.pw))
        t = "notes %s" % mine * rng.choice([1, 30])
        n.notes(x[0], x[1], x[2], t)
        return ["notes", "-s"] + (["-r", x[2]] if x[2] else []) + [x[0], x[1]], [(P_NOTES, t)], b"Notes stored.\n", n
    if k < 9:
        n.set_alias("al-%s.com" % mine, rng.choice(SITES))
        return ["alias", "al-%s.com" % mine, n.alias["al-%s.com" % mine]], [], b"Alias added.\n", n
    x = rng.choice([y for y in sorted(m.pw) if m.pw[y]["type"] == "stored"] or [None])
    if x is None:
        return one(rng, m, me, i)
    return ["show", x[0], x[1]], [], m.pw[x]["password"].encode() + b"\n", None


def shells(rng, obs, k, ops, extra):
    """Shells on the same file."""
    import random
    with Scratch() as d:
        os.mkdir(d + "/s")
        os.mkdir(d + "/h")
        path = d + "/s/storage.json"
        m, text = initial(rng, rng.choice([3, 30, 80]))
        with open(path, "w") as f:
            f.write(text)
        w0 = Write("-", canon_model(m), -2)
        w0.end = -1
        writes, log, errors, lock = [w0], [], [], threading.Lock()
        sh = []
        killed = set()
        try:
            for i in range(k):
                env = {}
                if rng.random() < .8:
                    env = {"LD_PRELOAD": SO, "FAULTIO_DIR": d + "/s", "FAULTIO_LOG": d + "/log%d" % i, "FAULTIO_DELAY": str(rng.choice([300, 2000, 8000]))}
                    if extra == "kill" and i == 0:
                        env.update(FAULTIO_AT=str(rng.randint(4, 20)), FAULTIO_MODE=rng.choice(["kill", "killafter", "partkill"]))
                sh.append(cli.Shell(path, PRIMARY, d + "/h/%d" % i, cwd=d, env=env))
                sh[-1].cmd(["alias", "al.com"])       # unlocked, from the initial content
            r = Reader(path)
            r.start()

            def work(i, seed):
                rr = random.Random(seed)
                mm = m.copy()
                try:
                    for j in range(ops):
                        words, dlg, msg, n = one(rr, mm, i, j)
                        w = Write(i, canon_model(n), time.monotonic()) if n is not None else None
                        with lock:
                            if w:
                                writes.append(w)
                            log.append("%d: %r" % (i, words))
                        try:
                            out, err, unmet = sh[i].cmd(words, dlg)
                        except Violation:
                            if extra == "kill" and i == 0 and sh[i].p.p.wait(10) == -9:
                                killed.add(i)
                                return
                            raise
                        if unmet is not None or err or not out.endswith(msg):
                            raise Violation("%r, while other programs work on the same storage, gives %r %r" % (words, out[-300:], err[-300:]))
                        if w:
                            w.end = time.monotonic()
                            mm = n
                except (Violation, Inconclusive) as e:
                    errors.append(e)
                except Exception as e:
                    errors.append(Inconclusive(repr(e)))
            ths = [threading.Thread(target=work, args=(i, "%s/%d" % (rng.random(), i)), daemon=True) for i in range(k)]
            for t in ths:
                t.start()
            if extra == "reset":
                for x in range(2):
                    time.sleep(rng.random() * .3)
                    w = Write("set-primary %d" % x, (frozenset(), frozenset()), time.monotonic(), OTHER)
                    with lock:
                        writes.append(w)
                        log.append("set-primary")
                    q = cli.run(path, ["set-primary", "-y"], [(P_NEW, OTHER), (P_REPEAT, OTHER)], cwd=d)
                    if q.rc != 0 or b"New primary password set" not in q.out:
                        raise Violation("set-primary, while other programs work on the same storage: %r" % q)
                    w.end = time.monotonic()
            for t in ths:
                t.join(100)
                if t.is_alive():
                    raise Inconclusive("a session does not end")
            if errors:
                errors.sort(key=lambda e: not isinstance(e, Violation))
                if isinstance(errors[0], Violation):
                    errors[0].replay.setdefault("log", log[-60:])
                raise errors[0]
            time.sleep(.01)
            r.stop.set()
            r.join(10)
            with open(path, "rb") as f:
                t = time.monotonic()
                r.reads.append([t, t, t, t, f.read()])
            states = judge(obs, r.reads, writes, log)
            left = sorted(os.listdir(d + "/s"))
            if left != ["storage.json"] and not killed:
                raise Violation("left behind next to the storage: %r" % (left,), log=log[-60:])
            for i, x in enumerate(sh):
                if i not in killed and x.close() != 0:
                    raise Violation("a shell ends with a failure status")
            obs.count("saves", len(writes) - 1)
            obs.count("overlapping saves", overlapping(writes))
            obs.count("distinct states read", len(states))
            obs.count("programs killed", len(killed))
            obs.case(("shells", k, len(states), overlapping(writes), len(writes)), overlapping(writes) > 0 and len(states) > 2,
                     {"shells": k, "saves": len(writes) - 1, "overlapping": overlapping(writes), "states read": len(states)})
        finally:
            for x in sh:
                x.__exit__()


def commands(rng, obs, k, rounds):
    """Single commands on the same file, all at once."""
    with Scratch() as d:
        os.mkdir(d + "/s")
        path = d + "/s/storage.json"
        m, text = initial(rng, rng.choice([3, 20]))
        with open(path, "w") as f:
            f.write(text)
        log = []
        base = canon_model(m)
        must, all_new = set(base[0]), {}
        for rnd in range(rounds):
            r = Reader(path)
            r.start()
            env = {"LD_PRELOAD": SO, "FAULTIO_DIR": d + "/s", "FAULTIO_LOG": d + "/log", "FAULTIO_DELAY": str(rng.choice([500, 4000]))}
            run = []
            try:
                for i in range(k):
                    kind = rng.choice(["add-stored", "add-stored", "add", "show", "list", "alias"])
                    who = "r%d-%d" % (rnd, i)
                    if kind == "add-stored":
                        words, new = [kind, "b.com", who], (("b.com", who, ""), "stored", "secret " + who, None, None, "")
                    elif kind == "add":
                        words, new = [kind, "c.com", who], (("c.com", who, ""), "generated2", None, 16, tuple(sorted(n for n, _ in ref.CLASSES)), "")
                    elif kind == "show":
                        words, new = [kind, "al.com", "n0"], None
                    elif kind == "alias":
                        words, new = [kind, "al.com"], None
                    else:
                        words, new = [kind, "a.com", "n0", "-v"], None
                    p = cli.Proc(["--stdin-passwords", "-c", path] + words, env=env if rng.random() < .7 else None, cwd=d)
                    run.append([p, kind, words, new, time.monotonic(), None])
                    log.append(repr(words))
                for x in run:
                    if x[0].expect(P_PRIMARY) is None:
                        raise Violation("%r, while others run: ends without asking for the primary password: %r" % (x[2], x[0].err[-300:]), log=log[-40:])
                for x in run:
                    x[0].line(PRIMARY)
                for x in run:
                    if x[1] == "add-stored":
                        if x[0].expect(P_STORED) is None:
                            raise Violation("%r, while others run: never asks for the password: %r" % (x[2], x[0].err[-300:]), log=log[-40:])
                for x in run:
                    x[4] = time.monotonic()
                    if x[1] == "add-stored":
                        x[0].line("secret " + x[2][2])
                for x in run:
                    rc = x[0].finish()
                    x[5] = time.monotonic()
                    want = {"show": b"pw-0\n", "list": b"    n0 (stored)\n", "alias": b"'al.com' is an alias for 'a.com'.\n"}.get(x[1], b"Password added.\n")
                    if rc != 0 or x[0].err or want not in x[0].out:
                        raise Violation("%r, while others run, ends with status %s, %r %r" % (x[2], rc, x[0].out[-300:], x[0].err[-300:]), log=log[-40:])
            finally:
                for x in run:
                    x[0].__exit__()
                r.stop.set()
                r.join(10)
            with open(path, "rb") as f:
                r.reads.append([0, 0, 0, 0, f.read()])
            news = {x[3] for x in run if x[3] is not None}
            n = 0
            for rd in r.reads:
                c = canon_file(rd[4])
                if c is None:
                    raise Violation("at some moment the storage file is nothing that opens: %d bytes, %r..." % (len(rd[4]), rd[4][:60]), log=log[-40:])
                (pw, al), _ = c
                if al != base[1] or not must <= pw or not pw - must <= news:
                    raise Violation("at some moment the storage file holds other data than was there and was added: missing %r, additional %r" % (
                        sorted(map(repr, must - pw))[:4], sorted(map(repr, pw - must - news))[:4]), log=log[-40:])
                n += 1
            if news and not (pw - must):
                raise Violation("all of several commands reported success, what none of them added is there", log=log[-40:])
            must = set(pw)
            left = sorted(os.listdir(d + "/s"))
            if left != ["storage.json"]:
                raise Violation("left behind next to the storage: %r" % (left,), log=log[-40:])
            obs.count("commands at once", k)
            obs.count("distinct contents judged", n)
            obs.case(("commands", k, n, len(news), len(pw)), len(news) > 1, {"commands": k, "contents seen": n, "added by": len(news)})


NEIGHBOURS = ["storage.json", "storage.json.bak", ".storage.json", "storage", "storage.tmp"]


def neighbours(rng, obs, ops):
    """Storages in the same directory, each used by one program: every one behaves as if alone."""
    import random
    with Scratch() as d:
        names = rng.sample(NEIGHBOURS, 4)
        errors, ths, stores = [], [], []
        env = {"LD_PRELOAD": SO, "FAULTIO_DIR": d, "FAULTIO_LOG": "/dev/null", "FAULTIO_DELAY": "1500"}
        for n in names:
            stores.append(Store(d, gen.token(rng, 8), "shell", name=n, obs=None, env=env))
            stores[-1].hist = d + "/" + n + ".history"
            stores[-1].do(["list"])      # started by this thread

        def work(st, seed):
            rr = random.Random(seed)
            try:
                for j in range(ops):
                    s, n = rr.choice(SITES), "n%d" % rr.randrange(4)
                    q = rr.randrange(6)
                    if q < 2:
                        st.add_stored(rr, s, n, gen.secret(rr))
                    elif q == 2:
                        st.add(rr, s, n, length=rr.randint(4, 24))
                    elif q == 3:
                        st.remove(rr, s, n)
                    elif q == 4:
                        st.set_notes(rr, s, n, "1", gen.notes(rr))
                    else:
                        st.notes(rr, s, n)
            except (Violation, Inconclusive) as e:
                errors.append(e)
            except Exception as e:
                errors.append(Inconclusive(repr(e)))
        try:
            for st in stores:
                ths.append(threading.Thread(target=work, args=(st, rng.random()), daemon=True))
                ths[-1].start()
            for t in ths:
                t.join(100)
                if t.is_alive():
                    raise Inconclusive("a session does not end")
            if errors:
                errors.sort(key=lambda e: not isinstance(e, Violation))
                raise errors[0]
            for st in stores:
                st.reopen()
                st.check_file()
            left = sorted(set(os.listdir(d)) - {n + ".history" for n in names})
            if left != sorted(names):
                raise Violation("in the directory of %r there is %r afterwards" % (names, left))
            obs.count("commands next to each other", ops * len(names))
            obs.case(("neighbours", tuple(sorted(names)), rng.random()), True)
        finally:
            for st in stores:
                st.close()


def main():
    common.build_cli()
    common.build_shim("faultio")
    r = Runner("C21", 900 if common.THOROUGH else 120)
    m = 40 if common.THOROUGH else 1
    r.run(shells, [(k, 40, e) for k in (2, 3, 5) for e in ("", "kill", "reset", "")] * (2 * m), "shells", procs=4)
    r.run(commands, [(k, 2) for k in (3, 6, 10)] * (3 * m), "commands", procs=3)
    r.run(neighbours, [(40,)] * (6 * m), "neighbours", procs=4)
    return finish(r, "exploration", RULE,
                  ["a program replaces what others saved since it read the file: the last save wins as a whole",
                   "two storages with equal content are not told apart"], 10)
