"""C05: saving is all-or-nothing under crashes and I/O errors at every file-changing call."""
import errno, json, os, resource, signal, subprocess, sys, threading, time
import cli, common, gen, ref
from cli import P_CODE, P_PRIMARY, P_STORED, P_NOTES, P_NEW, P_REPEAT
from common import Runner, Scratch, finish, Violation, Inconclusive
from model import Model
from store import Store, fail

RULE = ("for every mutating command and storage layout: the file-changing libc calls of an undisturbed run are counted, then "
        "the command is run again once per call and fault (SIGKILL before/after/in the middle of the call, ENOSPC/EIO/EACCES/"
        "EDQUOT, short write, EINTR, disk full from there on); afterwards the file must decrypt to exactly the state before or "
        "after the command, also with every write not yet synced thrown away (power loss). Plus concurrent readers of a file "
        "being rewritten, kills at random times, and write failures in the middle of shell sessions. Non-trivial: a run in "
        "which the fault was actually delivered.")

SO = os.path.join(common.BUILD, "faultio.so")
PRIMARY = "foobar primary"


def make(d, entries):
    """A storage with some content, and the model of it."""
    m = Model(PRIMARY)
    pws, recs = [], {"a.com": None, "b.com": None, "al.com": "a.com", "empty.com": None, "old.com": None,
                 "al2.com": "old.com", "al3.com": "old.com"}
    m.alias.update({"al.com": "a.com", "al2.com": "old.com", "al3.com": "old.com"})
    for i in range(entries):
        e = {"type": "stored", "site": "a.com" if i % 2 else "b.com", "name": "n%d" % i, "revision": "",
             "password": "pw-%d" % i, "notes": "note %d " % i * 20}
        pws.append(e)
        m.pw[(e["site"], e["name"], "")] = {"type": "stored", "password": e["password"], "notes": e["notes"]}
    text = ref.build_storage(PRIMARY, recs, pws, salt=b"0123456789abcdef", hs=b"h" * 32)[0]
    os.makedirs(os.path.dirname(d + "/x"), exist_ok=True)
    return m, text


UNLOCK = [(P_PRIMARY, PRIMARY)]
CODE = ref.make_code("recovered", b"s" * 16, ref.storage_key(PRIMARY, b"s" * 16)).split("\n")
OPS = {
    "add": (["add", "new.com", "me"], UNLOCK, lambda m: m.add("new.com", "me")),
    "overwrite": (["add", "-y", "a.com", "n1"], UNLOCK, lambda m: m.add("a.com", "n1")),
    "add-stored": (["add-stored", "al.com", "me"], UNLOCK + [(P_STORED, "s3cret")],
                   lambda m: m.add_stored("al.com", "me", "s3cret")),
    "recover": (["add-stored", "--recovery", "-y", "www.b.com", "n0"], UNLOCK + [(P_CODE, x) for x in CODE],
                lambda m: m.add_stored("b.com", "n0", "recovered")),
    "realias": (["alias", "old.com", "www.b.com"], UNLOCK, lambda m: m.set_alias("old.com", "b.com")),
    "add-empty": (["add", "-r", "7", "-l", "24", "-y", "empty.com", "me"], UNLOCK, lambda m: m.add("empty.com", "me", "7", 24)),
    "remove": (["remove", "a.com", "n1"], UNLOCK, lambda m: m.remove("a.com", "n1")),
    "notes": (["notes", "-s", "b.com", "n0"], UNLOCK + [(P_NOTES, "new notes")],
              lambda m: m.notes("b.com", "n0", "1", "new notes")),
    "alias": (["alias", "x.com", "b.com"], UNLOCK, lambda m: m.set_alias("x.com", "b.com")),
    "unalias": (["alias", "-r", "al.com"], UNLOCK, lambda m: m.remove_alias("al.com")),
    "list": (["list"], UNLOCK, lambda m: True),
    "set-primary": (["set-primary", "-y"], [(P_NEW, "another primary"), (P_REPEAT, "another primary")], None),
}
SUCCESS = {"add": b"Password added.", "overwrite": b"Password added.", "add-stored": b"Password added.",
           "remove": b"Password removed.", "notes": b"Notes stored.", "alias": b"Alias added.",
           "unalias": b"Alias removed.", "recover": b"Password added.", "realias": b"Alias added.",
           "add-empty": b"Password added.", "set-primary": b"New primary password set"}


def state_of(path, primary):
    try:
        with open(path, "rb") as f:
            data = f.read()
    except FileNotFoundError:
        return None, None
    try:
        return data, ref.read_storage(data.decode(), primary)
    except (ref.FormatError, UnicodeDecodeError) as e:
        return data, e


def content(p):
    """Everything in a storage that is not encoding."""
    return p.sites, p.passwords


def unsynced(log, path):
    """Files with written but never synced data at the end of the log (renames followed)."""
    dirty, last_tmp = set(), None
    for ln in log:
        p = ln.split(" ")
        call, f, fault = p[1], p[2], p[3] if len(p) > 3 else ""
        if fault in ("kill",) or fault == "FAIL" or fault.startswith("fail"):
            continue
        if call in ("write", "copy") or call == "open-truncate" or call.startswith("ftruncate"):
            dirty.add(f)
            last_tmp = f
        elif call in ("fsync", "fdatasync"):
            dirty.discard(f)
        elif call.startswith("rename"):
            src = last_tmp  # the log names the target
            if src in dirty:
                dirty.discard(src)
                dirty.add(f)
            else:
                dirty.discard(f)
    return dirty


def run_op(op, layout, entries, fault, obs, final=None, deny=None):
    """One disturbed (or counting) run. Returns the calls logged and the content of the storage; final is that of the counting run."""
    with Scratch() as d:
        os.mkdir(d + "/home")
        m, text = make(d, entries)
        words, dlg, apply = OPS[op]
        real = path = d + "/s/storage.json"
        fresh = layout == "fresh"
        if layout == "symlink":
            os.makedirs(d + "/s/real")
            os.makedirs(d + "/s/link")
            real = d + "/s/real/target.json"
            path = d + "/s/link/storage.json"
            os.symlink("../real/target.json", path)
        elif layout == "nested":
            path = real = d + "/s/not/there/yet/storage.json"
        else:
            os.makedirs(d + "/s")
        if layout not in ("fresh", "nested"):
            with open(real, "w") as f:
                f.write(text)
            os.chmod(real, 0o600)
        else:
            text = None
        new = m.copy()
        new_primary = PRIMARY
        if apply:
            apply(new)
        else:
            new, new_primary = Model("another primary"), "another primary"
        log = d + "/fault.log"
        env = {"LD_PRELOAD": SO, "FAULTIO_DIR": d + "/s", "FAULTIO_LOG": log, "HOME": d + "/home"}
        if deny:
            env["FAULTIO_DENY"] = str(deny)
        if fault:
            k, mode, en = fault
            env.update(FAULTIO_AT=str(k), FAULTIO_MODE=mode, FAULTIO_ERRNO=str(en))
        r = cli.run(path, words, dlg, cwd=d + "/home", env=env)
        calls = open(log).read().splitlines() if os.path.exists(log) else []
        if not fault and deny:
            # no new files may be created here: it works or it does not, but nothing in between
            data, p = state_of(path, new_primary)
            same = data == (text.encode() if text is not None else None)
            if not (same and r.rc != 0 or not isinstance(p, Exception) and p is not None and not new.diff(p) and r.rc == 0):
                raise Violation("%s (%s, %d entries) where no files can be created: %r, %s" % (
                    op, layout, entries, r, "the storage is unchanged" if same else "the storage changed"), deny=deny)
            return calls, None if r.rc else content(p)
        if not fault:
            if r.rc != 0:
                raise Violation("%s fails without any fault: %r" % (op, r))
            _, p = state_of(path, new_primary)
            df = ["%r" % p] if p is None or isinstance(p, Exception) else new.diff(p)
            if df:
                raise Violation("%s without any fault: %s" % (op, df))
            return calls, content(p)
        desc = "%s (%s, %d entries) with %s at call %d %s" % (
            op, layout, entries, fault[1], fault[0],
            [c for c in calls if c.startswith("%d " % fault[0])] or "(not reached)") + (
            " while no files can be created (error %d)" % deny if deny else "")
        delivered = any(c.startswith("%d " % fault[0]) for c in calls)
        obs.case((op, layout, entries, fault, deny), delivered,
                 {"run": desc, "exit": r.rc, "calls": [" ".join(c.split(" ")[1:2] + c.split(" ")[3:]) for c in calls]})
        if not delivered:
            return calls, None
        obs.count("fault_" + fault[1])
        killed = r.rc < 0
        if not killed and (r.rc == 101 or b"panicked" in r.err):
            raise Violation("%s: the program panics: %r" % (desc, r.err[-400:]), fault=fault, op=op)
        claimed = r.rc == 0 or SUCCESS.get(op, b"\0\0") in r.out
        variants = [("", [])]
        lost = [f for f in unsynced(calls, path) if os.path.exists(f)]
        if killed:
            variants.append((" and unsynced data lost", lost))
        for note, drop in variants:
            for f in drop:
                with open(f, "r+b") as fh:
                    fh.truncate(0)
            data, _ = state_of(path, PRIMARY)
            same_old = (data is None and text is None) or (data is not None and text is not None and data == text.encode())
            is_old = same_old
            is_new = False
            why = ""
            if data is not None:
                _, p = state_of(path, new_primary)
                if isinstance(p, Exception):
                    why = str(p)
                else:
                    is_new = content(p) == final
                    why = "; ".join(new.diff(p)[:2]) or "records of sites are %r instead of %r" % (p.sites, final[0])
                if not is_old and text is not None and apply:
                    _, p = state_of(path, PRIMARY)
                    is_old = not isinstance(p, Exception) and content(p) == content(ref.read_storage(text, PRIMARY))
            if not (is_old or is_new):
                raise Violation("%s%s: the storage is neither the old nor the new one (%s; file: %r)" % (
                    desc, note, why, (data or b"")[:120] if data is not None else None), fault=fault, op=op)
            if claimed and not is_new:
                raise Violation("%s%s: success was reported (status %s, %r) but the change is not in the file" % (
                    desc, note, r.rc, r.out[-100:]), fault=fault, op=op)
            obs.count("outcome_new" if is_new else "outcome_old")
        if not killed and r.rc != 0 and not r.err.strip():
            raise Violation("%s: failure without any message" % desc, fault=fault, op=op)
        if layout == "symlink" and not os.path.islink(path):
            raise Violation("%s: the symbolic link was replaced" % desc, fault=fault, op=op)
        return calls, None


MODES = [("kill", 0), ("killafter", 0), ("partkill", 0), ("fail", errno.ENOSPC), ("fail", errno.EIO), ("fail", errno.EACCES),
         ("failall", errno.ENOSPC), ("failall", errno.EDQUOT), ("partfail", errno.ENOSPC), ("short", 0), ("eintr", 0)]


def faults(rng, obs, op, layout, entries, deny=None):
    calls, final = run_op(op, layout, entries, None, obs)
    obs.count("undisturbed_calls", len(calls))
    if deny:
        calls, _ = run_op(op, layout, entries, None, obs, deny=deny)
        obs.count("calls_where_no_files_can_be_created", len(calls))
    if not calls and op != "list" and not deny:
        raise Inconclusive("%s: no file-changing call seen" % op)
    k = 1
    while k <= len(calls) + 1 and k < 60:
        for mode, en in MODES:
            if mode in ("partkill", "partfail", "short", "eintr") and k <= len(calls) and \
                    calls[k - 1].split(" ")[1] not in ("write", "copy"):
                continue
            if not common.THOROUGH and (k, mode) and en in (errno.EIO, errno.EDQUOT, errno.EACCES) and (k + len(op)) % 3:
                continue
            run_op(op, layout, entries, (k, mode, en), obs, final, deny)
        k += 1


def random_kills(rng, obs, runs):
    """SIGKILL at arbitrary moments of a shell session that keeps saving."""
    with Scratch() as d:
        m, text = make(d, 30)
        path = d + "/storage.json"
        for i in range(runs):
            with open(path, "w") as f:
                f.write(text)
            model = m.copy()
            sh = cli.Shell(path, PRIMARY, d + "/h", cwd=d)
            sh.cmd(["notes", "a.com", "n1"])
            n = 40
            lines = b"".join(b"add -y k%d.com me\n" % j for j in range(n))
            sh.p.send(lines)
            limit = rng.randint(0, n - 1)
            delay = rng.random() * .003
            # let some of them through
            while sh.p.out.count(b"Password added.") < limit and sh.p._pump(5):
                pass
            time.sleep(delay)
            sh.p.kill()
            try:
                while True:
                    c = os.read(sh.p.p.stdout.fileno(), 65536)
                    if not c:
                        break
                    sh.p.out += c
            except (OSError, ValueError):
                pass
            acked = sh.p.out.count(b"Password added.")
            _, p = state_of(path, PRIMARY)
            if p is None or isinstance(p, Exception):
                raise Violation("after SIGKILL between saves the storage is unreadable: %s" % p)
            got = sum(1 for k in p.passwords if k[0].startswith("k"))
            if got < acked:
                raise Violation("%d additions were acknowledged before SIGKILL, %d are in the file" % (acked, got))
            for j in range(got):
                model.add("k%d.com" % j, "me")
            df = model.diff(p)
            if sum(1 for k in p.sites if k.startswith("k")) != got:
                df.append("records of sites which have no passwords")
            if df:
                raise Violation("after SIGKILL the storage is no prefix of the operations: %s" % df[:3])
            obs.case(("kill", i, got), 0 < got < n, {"killed_after": got, "acknowledged": acked})
            obs.count("random_kills")


def readers(rng, obs, ops):
    """Readers poll the file while a shell rewrites it: only saved states may ever be visible."""
    with Scratch() as d:
        m, text = make(d, 60)
        path = d + "/storage.json"
        with open(path, "w") as f:
            f.write(text)
        seen, stop = {}, threading.Event()
        reads = [0]

        def reader():
            import hashlib
            while not stop.is_set():
                try:
                    with open(path, "rb") as f:
                        data = f.read()
                except FileNotFoundError:
                    data = b"(missing)"
                reads[0] += 1
                seen.setdefault(hashlib.sha1(data).digest(), data)
        ths = [threading.Thread(target=reader, daemon=True) for _ in range(2)]
        import hashlib
        states = {hashlib.sha1(text.encode()).digest()}
        for t in ths:
            t.start()
        try:
            with cli.Shell(path, PRIMARY, d + "/h", cwd=d) as sh:
                for i in range(ops):
                    k = i % 7
                    if k == 5:
                        sh.cmd(["alias", "alias%d.com" % i, "a.com"])
                    elif k == 4:
                        sh.cmd(["add-stored", "-y", "stored%d.com" % i, "me"], [(P_STORED, "password %d" % i)])
                    elif k == 3:
                        sh.cmd(["notes", "-s", "a.com", "n1"], [(P_NOTES, "notes %d" % i)])
                    elif k == 2:
                        sh.cmd(["remove", "site1.com", "me%d" % (i - 1)] if rng.random() < .5 else ["alias", "-r", "alias%d.com" % (i - 4)])
                    else:
                        sh.cmd(["add", "-y", "site%d.com" % (i if k else 1), "me%d" % i])
                    with open(path, "rb") as f:
                        states.add(hashlib.sha1(f.read()).digest())
        finally:
            stop.set()
            for t in ths:
                t.join(10)
        for h, data in seen.items():
            if h not in states:
                raise Violation("a concurrent reader saw %d bytes that are no saved state: %r" % (len(data), data[:80]))
        obs.count("concurrent_reads", reads[0])
        obs.count("distinct_states_read", len(seen))
        obs.case(("readers", len(seen)), len(seen) > 2, {"reads": reads[0], "distinct_states": len(seen), "saves": ops})


def full_disk_session(rng, obs):
    """A shell session in which saving fails now and then, or from some point on: the file keeps the acknowledged state, the
    session lives, and what was not saved does not appear later either."""
    with Scratch() as d:
        os.mkdir(d + "/s")
        os.mkdir(d + "/home")
        m, text = make(d, 6)
        path = d + "/s/storage.json"
        with open(path, "w") as f:
            f.write(text)
        at = rng.randint(2, 60)
        mode = rng.choice(["failall", "partfail", "fail", "limit", "limit", "limit"])
        env, kw = {}, {}
        if mode == "limit":
            kw["prepare"] = cli.file_limit(None)
        else:
            env = {"LD_PRELOAD": SO, "FAULTIO_DIR": d + "/s", "FAULTIO_LOG": d + "/log", "FAULTIO_AT": str(at),
                   "FAULTIO_MODE": mode, "FAULTIO_ERRNO": str(errno.ENOSPC)}
        failed, failures = 0, []
        with cli.Shell(path, PRIMARY, d + "/home/h", cwd=d + "/home", env=env, **kw) as sh:
            for i in range(18):
                before = open(path, "rb").read()
                if mode == "limit":
                    full = rng.random() < .4
                    cap = rng.randrange(min(len(before), 1200)) if full else resource.RLIM_INFINITY
                    resource.prlimit(sh.p.p.pid, resource.RLIMIT_FSIZE, (cap, resource.RLIM_INFINITY))
                k = rng.randrange(6)
                t = m.copy()
                have = sorted(x for x in t.pw if x[2] == "")
                z = "z%d.com" % i
                if k == 0 and have:
                    x = rng.choice(have)
                    words, dlg = ["remove", x[0], x[1]], []
                    t.remove(x[0], x[1])
                elif k == 1 and have:
                    x = rng.choice(have)
                    words, dlg = ["notes", "-s", x[0], x[1]], [(cli.P_NOTES, "notes %d" % i)]
                    t.notes(x[0], x[1], "1", "notes %d" % i)
                elif k == 2:
                    words, dlg = ["alias", z, "a.com"], []
                    t.set_alias(z, "a.com")
                elif k == 3:
                    words, dlg = ["add-stored", z, "me"], [(cli.P_STORED, "pw %d" % i)]
                    t.add_stored(z, "me", "pw %d" % i)
                else:
                    words, dlg = ["add", z, "me"], []
                    t.add(z, "me")
                out, err, unmet = sh.cmd(words, dlg)
                if unmet is not None:
                    raise Violation("%r never asks %r in a session in which saving fails now and then: %r %r" % (
                        words, unmet, out[-200:], err[-200:]), failures=failures)
                if err:
                    failed += 1
                    failures.append(words)
                    if mode == "limit" and not full:
                        raise Violation("%r fails after saving failed earlier: %r" % (words, err[-200:]), failures=failures)
                    if rng.random() < .5 and len(words) == 3:
                        # not there for the rest of the session either
                        o, e, _ = sh.cmd(["show", "-q", z, "me"] if words[0] != "alias" else ["alias", z]) if z in words else sh.cmd(
                            ["show", "-q", words[1], words[2]])
                        if bool(e) != (z in words):
                            raise Violation("after %r could not be saved, the session has its effect: %r %r" % (words, o, e))
                        obs.count("queries_after_failed_saves")
                else:
                    m = t
                    if mode == "limit" and full:
                        raise Violation("%r fails silently in a shell: %r" % (words, out))
                _, p = state_of(path, PRIMARY)
                if p is None or isinstance(p, Exception):
                    raise Violation("after a failed save in a shell the storage is unreadable: %s" % p, at=at)
                if err and open(path, "rb").read() != before:
                    raise Violation("a save reported as failed changed the storage file", at=at)
                df = m.diff(p)
                if df:
                    raise Violation("after %r %s, having had failures of %r, the storage differs from what was acknowledged: %s" % (
                        words, "failed" if err else "succeeded", failures, "; ".join(df[:3])), at=at, mode=mode)
        obs.case(("session", at, mode, failed), failed > 0, {"fault_at_call": at, "mode": mode, "failed_saves": failed})
        obs.count("failed_saves_in_sessions", failed)


def main():
    common.build_cli()
    common.build_shim("faultio")
    r = Runner("C05", 900 if common.THOROUGH else 150)
    jobs = []
    for op in OPS:
        lay = ["plain", "symlink"] if op in ("add", "notes", "set-primary") or common.THOROUGH else ["plain"]
        if op == "set-primary":
            lay += ["fresh", "nested"]
        for l in lay:
            for n in ([8] if not common.THOROUGH else [1, 8, 300]):
                jobs.append((op, l, n))
    jobs.append(("add", "plain", 300))
    for op, deny in [("add", errno.EACCES), ("notes", errno.EROFS), ("remove", errno.EDQUOT), ("alias", errno.ENOSPC), ("set-primary", errno.EPERM)]:
        jobs.append((op, "plain", 8, deny))
    if common.THOROUGH:
        jobs += [(op, l, 8, deny) for op in OPS for l in ("plain", "symlink") for deny in (errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EPERM, errno.EMFILE)]
    r.run(faults, jobs, "faults at every call")
    r.run(full_disk_session, [()] * (320 if common.THOROUGH else 32), "failing saves in a session")
    r.run(random_kills, [(40 if common.THOROUGH else 5,)] * 8, "kills at random times")
    r.run(readers, [(3000 if common.THOROUGH else 250,)] * 3, "concurrent readers", procs=3)
    return finish(r, "fault_enumeration", RULE,
                  ["faults are injected at libc's file-changing calls; writes through mmap or raw system calls would be missed",
                   "power loss is modelled as the loss of the whole content of files with unsynced data"], 30)
