"""Drives the real pfp-cli through pipes, the way its --stdin-passwords option allows,
recording everything it writes. Interactive: a line is only sent after its prompt was seen,
because the program reads ahead on stdin for some prompts and not for others."""
import ctypes, os, re, resource, select, signal, subprocess, time  # noqa
import common
from common import Violation, Inconclusive

_libc = ctypes.CDLL("libc.so.6", use_errno=True)
WATCHDOG = 120.0     # wall clock, inconclusive
STALL = 25.0         # quiet and blocked: the dialogue is not the expected one
FLOOD = 2_000_000    # bytes of output no command of ours legitimately produces

P_PRIMARY = b"Your primary password: "
P_STORED = b"Password to be stored: "
P_NEW = b"New primary password: "
P_REPEAT = b"Repeat primary password: "
P_NOTES = b"Please enter new notes to be stored:"
P_OVERWRITE = b"combination already exists. Overwrite?"
P_RESET = b"will remove all existing data. Continue?"
P_CODE = b"Next line of your recovery code (empty line to abort):"


def _child():
    _libc.prctl(1, signal.SIGKILL)  # die with the monitor
    os.setpgid(0, 0)


class Stalled(Exception):
    pass


class Proc:
    def __init__(self, args, env=None, cwd=None, cli=None, stdin=None, wrap=(), prepare=None, argv0=None, merge=False):
        e = {"PATH": "/usr/bin:/bin", "HOME": cwd or "/proc/nonexistent", "TERM": "xterm", "LANG": "C.UTF-8"}
        if env:
            e.update(env)
        e = {k: v for k, v in e.items() if v is not None}
        self.args = list(args)
        command = list(wrap) + [cli or common.CLI]
        self.p = subprocess.Popen([command[0] if argv0 is None else argv0] + command[1:] + self.args, executable=command[0], stdin=stdin or subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE, env=e, cwd=cwd,
                                  preexec_fn=(lambda: (_child(), prepare())) if prepare else _child, bufsize=0, close_fds=True)
        self.files = [f for f in (self.p.stdout, self.p.stderr) if f]
        for f in self.files:
            os.set_blocking(f.fileno(), False)
        self.out = b""
        self.err = b""
        self.pos = 0          # consumed part of out
        self.epos = 0         # consumed part of err
        self.open = dict(zip([f.fileno() for f in self.files], ("out", "err")))
        self.start = time.time()
        self.sent = []

    # -- reading
    def _pump(self, timeout):
        if not self.open:
            return False
        r, _, _ = select.select(list(self.open), [], [], timeout)
        got = False
        for fd in r:
            try:
                d = os.read(fd, 65536)
            except BlockingIOError:
                continue
            if not d:
                del self.open[fd]
                continue
            got = True
            if self.open[fd] == "out":
                self.out += d
            else:
                self.err += d
            if len(self.out) + len(self.err) > FLOOD:
                self.kill()
                raise Violation("endless output: more than %d bytes written" % FLOOD, args=repr(self.args),
                                tail=repr((self.out + self.err)[-300:]))
        return got

    def _cpu(self):
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return f[0], int(f[11]) + int(f[12])
        except (OSError, IndexError):
            return "X", 0

    def _wait(self, done):
        """Pumps until done() or end of output. True if done."""
        last = time.time()
        mark = None
        while True:
            if done():
                return True
            if not self.open:
                return done()
            if self._pump(0.5):
                last, mark = time.time(), None
                continue
            now = time.time()
            if now - self.start > WATCHDOG:
                self.kill()
                raise Inconclusive("watchdog: %r" % (self.args,))
            if now - last > STALL:
                st, cpu = self._cpu()
                if st == "S" and mark is not None and mark[1] == cpu and now - mark[0] > 5:
                    raise Stalled()
                if mark is None or mark[1] != cpu:
                    mark = (now, cpu)

    def expect(self, text, stream="out"):
        """Waits for text after the consumed part of the output; None if the program ended without it."""
        if isinstance(text, bytes):
            text = (text,)

        def find():
            buf, pos = (self.out, self.pos) if stream == "out" else (self.err, self.epos)
            best = None
            for t in text:
                i = buf.find(t, pos)
                if i >= 0 and (best is None or i < best[0]):
                    best = (i, t)
            return best

        try:
            ok = self._wait(lambda: find() is not None)
        except Stalled:
            out, err = self.out[self.pos:], self.err[self.epos:]
            self.close_stdin()
            try:
                self._wait(lambda: False)
            except (Stalled, Inconclusive):
                pass
            self.kill()
            raise Violation("the program waits for input without having shown the expected %r" % (text,),
                            args=repr(self.args), stdout=repr(out[-400:]), stderr=repr(err[-400:]))
        if not ok:
            return None
        i, t = find()
        if stream == "out":
            self.pos = i + len(t)
        else:
            self.epos = i + len(t)
        return t

    # -- writing
    def send(self, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        self.sent.append(data)
        try:
            os.set_blocking(self.p.stdin.fileno(), True)
            view = memoryview(data)
            while view:
                n = os.write(self.p.stdin.fileno(), view[:32768])
                view = view[n:]
        except (BrokenPipeError, OSError):
            pass

    def line(self, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        self.send(data + b"\n")

    def drained(self):
        """Waits until the program has read what was sent (one of its prompts reads ahead)."""
        end = time.time() + WATCHDOG
        buf = ctypes.c_int(0)
        while self.p.poll() is None and time.time() < end:
            if _libc.ioctl(self.p.stdin.fileno(), 0x541B, ctypes.byref(buf)) != 0 or buf.value == 0:
                return
            self._pump(0.0005)

    def close_stdin(self):
        try:
            if self.p.stdin:
                self.p.stdin.close()
        except OSError:
            pass

    def finish(self):
        """Closes stdin, reads to the end, returns the exit status."""
        self.close_stdin()
        try:
            self._wait(lambda: False)
        except Stalled:
            self.kill()
            raise Inconclusive("blocked after end of input: %r" % (self.args,))
        end = time.time() + WATCHDOG
        while self.p.poll() is None:
            if time.time() > end:
                self.kill()
                raise Inconclusive("does not exit: %r" % (self.args,))
            time.sleep(0.002)
        self._close()
        return self.p.returncode

    def _close(self):
        for f in self.files:
            try:
                f.close()
            except OSError:
                pass

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            pass
        self.close_stdin()
        self._close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.p.poll() is None:
            self.kill()
        self.close_stdin()
        self._close()


class Result:
    def __init__(self, args, rc, out, err, unmet):
        self.args, self.rc, self.out, self.err, self.unmet = args, rc, out, err, unmet

    def __repr__(self):
        return "%r -> rc=%s out=%r err=%r%s" % (self.args, self.rc, self.out[-600:], self.err[-400:],
                                              " never asked: %r" % (self.unmet,) if self.unmet else "")

    def panicked(self):
        return b"panicked at" in self.err or self.rc < 0 or self.rc == 101


def file_limit(size):
    """For a child: writing files beyond this size fails, as if the disk was full."""
    def prepare():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if size is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
    return prepare


def run(storage, args, dialogue=(), env=None, cwd=None, cli=None, pre=(), wrap=(), prepare=None):
    """One command. dialogue: list of (prompt, line); a prompt that is never shown ends the dialogue
    (`unmet` tells). The whole output is returned."""
    a = ["--stdin-passwords"]
    if storage is not None:
        a += ["-c", storage]
    with Proc(a + list(pre) + list(args), env=env, cwd=cwd, cli=cli, wrap=wrap, prepare=prepare) as p:
        unmet = None
        for prompt, reply in dialogue:
            if p.expect(prompt) is None:
                unmet = prompt
                break
            if reply is None:
                break
            p.line(reply)
        rc = p.finish()
        return Result(list(args), rc, p.out, p.err, unmet)


def body(out, *prompts):
    """Output after the last of the prompts."""
    pos = 0
    for pr in prompts:
        i = out.rfind(pr)
        if i >= 0:
            pos = max(pos, i + len(pr))
    return out[pos:]


def init_storage(path, primary, cwd=None, env=None):
    r = run(path, ["set-primary", "-y"], [(P_NEW, primary), (P_REPEAT, primary)], cwd=cwd, env=env)
    if r.rc != 0 or r.unmet or not os.path.exists(path):
        raise Violation("set-primary with a valid primary password does not create a storage: %r" % r, storage=path)
    return r


def shell_quote(s):
    """Quotes one word for the shell command's splitter (Bourne rules)."""
    return "'" + s.replace("'", "'\\''") + "'"


class Shell:
    """A `shell` session over pipes. Every command is followed by a word that is no command: the
    complaint about it on stderr marks the end of the command's output."""

    def __init__(self, storage, primary, history, cwd=None, env=None, cli=None, **kw):
        self.primary = primary
        self.p = Proc(["--stdin-passwords", "-c", storage, "shell", "-s", history], env=env, cwd=cwd, cli=cli, **kw)
        self.n = 0
        self.unlocked = False
        if self.p.expect(b"Enter a command") is None:
            rc = self.p.finish()
            raise Violation("the shell does not start: rc=%s %r" % (rc, self.p.err[-400:]))
        # learn what the complaint about an unknown word looks like around the word
        m1, m2 = self._mark().encode(), self._mark().encode()
        self.p.line(m1)
        if self.p.expect(m1, "err") is None:
            rc = self.p.finish()
            raise Violation("the shell does not survive an unknown command: rc=%s %r" % (rc, self.p.err[-400:]))
        pre = self.p.err[:self.p.epos - len(m1)]
        self.head = pre[pre.rfind(b"\n") + 1:]
        e = self.p.epos
        self.p.line(m2)
        if self.p.expect(m2, "err") is None:
            rc = self.p.finish()
            raise Violation("the shell does not survive an unknown command: rc=%s %r" % (rc, self.p.err[-400:]))
        between = self.p.err[e:self.p.epos - len(m2)]
        self.tail = between[:len(between) - len(self.head)]
        while self.p._pump(0):
            pass
        self.p.pos = len(self.p.out)

    def _mark(self):
        self.n += 1
        return "nosuchcommand%dx" % self.n

    def cmd_raw(self, line, dialogue=()):
        """Sends a line, answers its prompts; returns (stdout, stderr) it produced."""
        o, e = self.p.pos, self.p.epos
        self.p.line(line)
        unmet = None
        for prompt, reply in dialogue:
            if self.p.expect(prompt) is None:
                unmet = prompt
                break
            self.p.line(reply)
            self.p.drained()
        m = self._mark().encode()
        self.p.line(m)
        if self.p.expect(m, "err") is None:
            rc = self.p.finish()
            raise Violation("the shell session ended during %r: rc=%s stderr=%r" % (line, rc, self.p.err[-600:]),
                            line=repr(line), stderr=repr(self.p.err[-600:]))
        # everything on stdout was written before the mark's complaint
        while self.p._pump(0):
            pass
        out = self.p.out[o:]
        self.p.pos = len(self.p.out)
        err = self.p.err[e:self.p.epos - len(m)]
        if err.startswith(self.tail):
            err = err[len(self.tail):]
        if self.head and err.endswith(self.head):
            err = err[:-len(self.head)]
        return out, err, unmet

    def cmd(self, words, dialogue=()):
        """Runs a command given as words; unlocks when asked (first command)."""
        dlg = list(dialogue)
        if not self.unlocked:
            dlg.insert(0, (P_PRIMARY, self.primary))
            self.unlocked = True
        # plain words are not always quoted
        plain = self.n % 4
        return self.cmd_raw(" ".join(w if plain and re.fullmatch("[A-Za-z0-9.-]+", w) else shell_quote(w) for w in words), dlg)

    def lock(self):
        r = self.cmd_raw("lock")
        self.unlocked = False
        return r

    def close(self):
        self.p.line("exit")
        rc = self.p.finish()
        return rc

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)
