"""Drives the real pfp-cli on a pseudo-terminal, the way people use it."""
import fcntl, os, pty, select, signal, subprocess, termios, time
import common
from common import Inconclusive, Violation

HIDDEN = (b"Your primary password: ", b"New primary password: ", b"Repeat primary password: ", b"Password to be stored: ")


class Term:
    """One program on a terminal of its own. The screen is everything that reaches the terminal, echoes included."""

    def __init__(self, args, env=None, cwd=None, prepare=None, argv0=None, stdin=None, stdout=None):
        e = {"PATH": "/usr/bin:/bin", "HOME": cwd or "/proc/nonexistent", "TERM": "xterm", "LANG": "C.UTF-8"}
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        self.args = list(args)
        self.master, self.slave = pty.openpty()
        os.set_blocking(self.master, False)
        slave = self.slave

        def child():
            os.setsid()
            fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
            common_die()
            signal.signal(signal.SIGINT, signal.SIG_DFL)     # our workers ignore it
            if prepare:
                prepare()

        self.p = subprocess.Popen([argv0 if argv0 is not None else common.CLI] + self.args, executable=common.CLI, stdin=slave if stdin is None else stdin, stdout=slave if stdout is None else stdout, stderr=slave, env=e, cwd=cwd, preexec_fn=child)
        self.screen, self.pos = b"", 0
        self.end = time.time() + 120

    def echo(self):
        return bool(termios.tcgetattr(self.slave)[3] & termios.ECHO)

    def canonical(self):
        return bool(termios.tcgetattr(self.slave)[3] & termios.ICANON)

    def pump(self, timeout=.02):
        if select.select([self.master], [], [], timeout)[0]:
            try:
                x = os.read(self.master, 65536)
            except (BlockingIOError, OSError):
                return False
            self.screen += x
            if len(self.screen) > 4_000_000:
                self.kill()
                raise Violation("%r: endless output on a terminal" % (self.args,))
            return bool(x)
        return False

    def expect(self, text):
        """True once text is on the screen after the part consumed, False if the program ended without."""
        while True:
            i = self.screen.find(text, self.pos)
            if i >= 0:
                self.pos = i + len(text)
                return True
            gone = self.p.poll() is not None
            if not self.pump() and gone:
                return False
            if time.time() > self.end:
                self.kill()
                raise Inconclusive("terminal: %r never shows %r: %r" % (self.args, text, self.screen[-300:]))

    def hidden(self, seconds=20):
        """Waits until the terminal does not echo. False if it keeps echoing."""
        end = time.time() + seconds
        while self.echo():
            if time.time() > end or self.p.poll() is not None:
                return False
            self.pump(.001)
        return True

    def type(self, data):
        if isinstance(data, str):
            data = data.encode()
        while data:
            try:
                n = os.write(self.master, data[:512])
                data = data[n:]
            except BlockingIOError:
                self.pump(.005)
            if time.time() > self.end:
                self.kill()
                raise Inconclusive("terminal: %r does not read" % (self.args,))

    def wait(self):
        while self.p.poll() is None:
            self.pump()
            if time.time() > self.end:
                self.kill()
                raise Inconclusive("terminal: %r does not end: %r" % (self.args, self.screen[-300:]))
        while self.pump(0):
            pass
        return self.p.returncode

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.p.poll() is None:
            self.kill()
        os.close(self.master)
        os.close(self.slave)


def common_die():
    import ctypes
    ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)


def dialogue(t, dlg):
    """Answers prompts; at the hidden ones once echoing is off. -> prompts left over, whether one kept echoing."""
    echoed = None
    for i, (prompt, reply) in enumerate(dlg):
        if not t.expect(prompt):
            return dlg[i:], echoed
        if prompt in HIDDEN and not t.hidden():
            echoed = prompt
        t.type(reply + "\n")
    return [], echoed
