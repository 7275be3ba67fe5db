"""Drives the library (pfp) in a process of its own, call by call, through the harness in /verif/harness."""
import json, os, select, subprocess, time
import common
from common import Inconclusive, Violation


def h(x):
    if isinstance(x, str):
        x = x.encode("utf-8")
    return x.hex() or "-"


def unh(x):
    return bytes.fromhex(x).decode("utf-8")


class Reply:
    def __init__(self, d):
        self.panic = d.get("panic", False)
        self.err = d.get("err")
        self.value = d.get("ok")
        self.calls = [c.split(" ") for c in d.get("calls", [])]
        self.debug = unh(d["debug"]) if "debug" in d else ""

    def __repr__(self):
        return "a panic" if self.panic else "error %s" % self.debug if self.err else "success (%r)" % (self.value,)

    @property
    def ok(self):
        return not self.panic and self.err is None


class Lib:
    """The harness process."""

    def __init__(self, cwd=None, wrap=()):
        self.p = subprocess.Popen(list(wrap) + [common.HARNESS], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd,
                                  env={"PATH": "/usr/bin:/bin", "HOME": cwd or "/proc/nonexistent"})
        self.buf = b""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()

    def _line(self):
        end = time.time() + 120
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                raise Inconclusive("the library did not answer within two minutes")
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise Violation("the process using the library ended with status %s" % self.p.wait())
            self.buf += d
        line, _, self.buf = self.buf.partition(b"\n")
        return Reply(json.loads(line))

    def raw(self, *words):
        return self.batch([words])[0]

    def batch(self, lines):
        """Several calls at once; answers in order."""
        out = []
        for i in range(0, len(lines), 200):
            part = lines[i:i + 200]
            data = "".join(" ".join(w or "-" for w in x) + "\n" for x in part).encode()
            if len(data) < 60000:
                self.p.stdin.write(data)
                self.p.stdin.flush()
                out += [self._line() for _ in part]
            else:
                for x in part:
                    self.p.stdin.write((" ".join(w or "-" for w in x) + "\n").encode())
                    self.p.stdin.flush()
                    out.append(self._line())
        return out

    # library calls
    def open_memory(self, slot, data, order=0):
        a = []
        for k, v in data:
            a += [h(k), h(v)]
        return self.raw("open", slot, "memory", str(order), *a)

    def call(self, slot, op, *args):
        return self.raw("call", slot, op, *[a if op == "set_generated" and i > 2 or op == "fail_flush" else h(a) for i, a in enumerate(args)])

    def data(self, slot, which="data"):
        return dict((unh(k), unh(v)) for k, v in self.call(slot, which).value)
