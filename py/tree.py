"""Snapshots of a directory tree: what is there, and what changed."""
import hashlib, os, stat


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root, followlinks=False):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            try:
                s = os.lstat(p)
            except FileNotFoundError:
                continue
            m = stat.S_IMODE(s.st_mode)
            if stat.S_ISLNK(s.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                out[rel] = ("dir", m)
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    out[rel] = ("file", m, s.st_uid, s.st_gid, hashlib.sha1(f.read()).hexdigest())
            else:
                out[rel] = ("other", s.st_mode)
    return out


def changes(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
