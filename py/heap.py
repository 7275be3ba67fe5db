"""The heap monitor (shim/heapmon.c): needles, logs, attribution of what was found."""
import functools, hashlib, json, os, re, signal, subprocess, time
import common, ref
from common import Inconclusive, Violation

WIN = 16       # needles are pieces of this length, so that partial copies are found as well


def xored(b):
    return bytes(x ^ 0x5a for x in b).hex()


def pieces(b):
    """Beginning, middle and end of a secret (everything, if it is short)."""
    if len(b) <= WIN + 4:
        return [b] if len(b) >= 10 else []
    m = (len(b) - WIN) // 2
    out = []
    for i in (0, m, len(b) - WIN):
        if b[i:i + WIN] not in out:
            out.append(b[i:i + WIN])
    return out


def text_forms(text):
    """How a secret text may be lying around: as it is, or within JSON data."""
    forms = [text.encode("utf-8")]
    for ascii_only in (False, True):
        j = json.dumps(text, ensure_ascii=ascii_only)[1:-1].encode("utf-8")
        if j not in forms:
            forms.append(j)
    return forms


def binary_forms(b):
    return [b, ref.b64(b).encode()]


@functools.lru_cache(maxsize=4096)
def _symbols(cli, addrs):
    """Function names, innermost first, inlined ones included. addr2line takes its time: results are shared by the workers."""
    st = os.stat(cli)
    d = os.path.join(common.BUILD, "symbols")
    f = os.path.join(d, hashlib.sha1(repr((cli, st.st_mtime_ns, st.st_size, addrs)).encode()).hexdigest())
    try:
        with open(f) as x:
            return json.load(x)
    except (OSError, ValueError):
        pass
    r = _resolve(cli, addrs)
    os.makedirs(d, exist_ok=True)
    with open("%s.%d" % (f, os.getpid()), "w") as x:
        json.dump(r, x)
    os.rename("%s.%d" % (f, os.getpid()), f)
    return r


def _resolve(cli, addrs):
    o = subprocess.run(["addr2line", "-Cfpie", cli] + list(addrs), capture_output=True, text=True).stdout
    return [re.sub(r" at \S*$", "", x).replace(" (inlined by) ", "") for x in o.split("\n") if x and not x.startswith("??")]


class Monitor:
    """Needles are labelled; what is found is reported by label."""

    def __init__(self, d, canary):
        self.d, self.log = d, os.path.join(d, "heap.log")
        self.needles = []        # (label, bytes)
        self.so = common.build_shim_path("heapmon")
        self.pos = 0
        self.canary = canary     # text which nobody wipes: shows that the monitor sees the blocks
        self._add("canary", canary.encode())

    def _add(self, label, b):
        for p in pieces(b):
            if all(p != q for _, q in self.needles):
                self.needles.append((label, p))

    def secret(self, label, text):
        for f in text_forms(text):
            self._add(label, f)

    def binary(self, label, b):
        for f in binary_forms(b):
            self._add(label, f)

    def env(self):
        if len(self.needles) > 158:
            raise Inconclusive("too many needles")
        return {"LD_PRELOAD": self.so, "HEAPMON_LOG": self.log, "HEAPMON_SECRETS": ",".join(xored(b) for _, b in self.needles)}

    def read(self):
        """New part of the log: [(how, label, needle, block size, innermost functions)], statistics or None."""
        with open(self.log, "rb") as f:
            f.seek(self.pos)
            t = f.read().decode("ascii", "replace")
        self.pos += len(t)
        found = []
        for how, k, size, off, bt in re.findall(r"FOUND (\S+) secret=(\d+) block=(\d+) offset=(\d+)\n(.*?)END", t, re.S):
            label, needle = self.needles[int(k)]
            addrs = tuple(re.findall(r"pfp-cli\(\+(0x[0-9a-f]+)\)", bt))
            frames = [] if label == "canary" or how.startswith("live") else _symbols(common.CLI, addrs)
            found.append((how, label, needle, int(size), frames))
        stats = re.findall(r"STATS alloc=(\d+) free=(\d+) realloc=(\d+) bytes=(\d+) live=(\d+) secrets=(\d+) found=(\d+)", t)
        return found, [dict(zip(("alloc", "free", "realloc", "bytes", "live", "secrets", "found"), map(int, s))) for s in stats], \
            t.count("SCANNED")

    def scan(self, pid):
        """Has the live blocks searched now; only while the program waits for input."""
        before = open(self.log, "rb").read().count(b"SCANNED")
        os.kill(pid, signal.SIGUSR1)
        end = time.time() + 60
        while open(self.log, "rb").read().count(b"SCANNED") == before:
            if time.time() > end:
                raise Inconclusive("no answer to the scan request")
            time.sleep(.002)


def from_json_reader(f):
    """The listed finding: serde_json's own buffer for strings with escapes (its code, not the caller's, drops or moves it)."""
    how, label, needle, size, frames = f
    first = next((x for x in frames if "serde_json::" in x or "pfp::" in x or "pfp_cli::" in x), "")
    return how in ("free", "realloc") and "serde_json::" in first and "pfp" not in first


def from_terminal_prompt(f):
    """The listed finding: rpassword's input buffer."""
    how, label, needle, size, frames = f
    return how == "free" and any(x.startswith("rpassword::") for x in frames)
