"""Executable model of the store as the documentation describes it, and the texts the CLI prints for it."""
import ref


class Model:
    def __init__(self, primary):
        self.primary = primary
        self.alias = {}      # site -> target, flat
        self.pw = {}         # (site, name, rev) -> dict
        self.known = set()   # sites that ever had a record

    def copy(self):
        m = Model(self.primary)
        m.alias = dict(self.alias)
        m.pw = {k: dict(v) for k, v in self.pw.items()}
        m.known = set(self.known)
        return m

    @staticmethod
    def norm(site):
        return site[4:] if site.startswith("www.") else site

    def resolve(self, site):
        n = self.norm(site)
        return self.alias.get(n, n)

    def id(self, site, name, rev):
        return (self.resolve(site), name, ref.norm_rev(rev))

    def has(self, site, name, rev="1"):
        return self.id(site, name, rev) in self.pw

    # mutations; False: the program must refuse
    def add(self, site, name, rev="1", length=16, classes=("lower", "upper", "number", "symbol")):
        self.pw[self.id(site, name, rev)] = {"type": "generated2", "length": length, "classes": tuple(classes),
                                             "notes": ""}
        self.known.add(self.resolve(site))
        return True

    def add_stored(self, site, name, password, rev="1"):
        self.pw[self.id(site, name, rev)] = {"type": "stored", "password": password, "notes": ""}
        self.known.add(self.resolve(site))
        return True

    def remove(self, site, name, rev="1"):
        return self.pw.pop(self.id(site, name, rev), None) is not None

    def notes(self, site, name, rev, text):
        e = self.pw.get(self.id(site, name, rev))
        if e is None:
            return False
        e["notes"] = text
        return True

    def set_alias(self, site, target):
        s, t = self.norm(site), self.resolve(target)
        if any(k[0] == s for k in self.pw) or s == t:
            return False
        self.alias[s] = t
        for k, v in list(self.alias.items()):
            if v == s:
                self.alias[k] = t
        return True

    def remove_alias(self, site):
        return self.alias.pop(self.norm(site), None) is not None

    # values
    def value(self, ident):
        e = self.pw[ident]
        if e["type"] == "stored":
            return e["password"]
        return ref.generate(self.primary, ident[0], ident[1], ident[2], e["length"], e["classes"])

    # comparison with the decrypted file
    def diff(self, plain):
        out = []
        got = {k: dict(v) for k, v in plain.passwords.items()}
        for k in sorted(set(got) | set(self.pw)):
            a, b = self.pw.get(k), got.get(k)
            if a is None:
                out.append("entry %r should not exist: %r" % (k, b))
                continue
            if b is None:
                out.append("entry %r is missing: %r" % (k, a))
                continue
            want = {"type": a["type"], "site": k[0], "name": k[1], "revision": k[2]}
            if a["notes"]:
                want["notes"] = a["notes"]
            if a["type"] == "stored":
                want["password"] = a["password"]
            else:
                want["length"] = a["length"]
                for n, _ in ref.CLASSES:
                    want[n] = n in a["classes"]
            if b.get("notes") == "":
                b = {x: y for x, y in b.items() if x != "notes"}
            if b != want:
                out.append("entry %r is %r instead of %r" % (k, b, want))
        al = {s: t for s, t in plain.sites.items() if t is not None}
        if al != self.alias:
            out.append("aliases are %r instead of %r" % (al, self.alias))
        for s in {k[0] for k in self.pw}:
            if s not in plain.sites:
                out.append("site %r has passwords but no site entry" % s)
        return out

    # what `list` prints
    def listing(self, domain="*", name="*", show=False, verbose=False, codes=None):
        """codes: id -> recovery code text (parsed from the output; they differ every time)."""
        sites = set()
        for k in self.pw:
            if ref.wild(domain, k[0]):
                sites.add(k[0])
        for a, t in self.alias.items():
            if ref.wild(domain, a) or ref.wild(domain, t):
                sites.add(t)
        out = []
        for s in sorted(sites, key=lambda x: x.encode()):
            entries = [k for k in self.pw if k[0] == s and ref.wild(name, k[1])]
            if not entries:
                continue
            out.append("Passwords for %s:" % s)
            if verbose:
                al = sorted((a for a, t in self.alias.items() if t == s and
                             (ref.wild(domain, a) or ref.wild(domain, s))), key=lambda x: x.encode())
                if al:
                    out.append("    Aliases: " + ",\n             ".join(al))
            entries.sort(key=lambda k: (k[1] + " " + k[2]).encode())
            for k in entries:
                e = self.pw[k]
                t = "stored" if e["type"] == "stored" else "generated"
                out.append("    %s (%s, revision: %s)" % (k[1], t, k[2]) if k[2] else "    %s (%s)" % (k[1], t))
                if show:
                    out.append("        " + self.value(k))
                if codes is not None and e["type"] == "stored":
                    out.append("        Recovery code:")
                    out.append(("CODE", k))
                if verbose:
                    if e["notes"]:
                        out.append("        Notes: " + e["notes"])
                    if t == "generated":
                        out.append("        Length: %d" % e["length"])
                        out.append("        Allowed characters: " + " ".join(
                            x for n, x in (("lower", "abc"), ("upper", "ABC"), ("number", "789"), ("symbol", "+^;"))
                            if n in e["classes"]))
        if not out:
            out.append("No matching passwords found.")
        return out


def compare_listing(expected, text, on_code=None):
    """None if the printed text is the expected listing, else what differs."""
    lines = text.decode("utf-8", "replace")
    if not lines.endswith("\n"):
        return "no final newline: %r" % lines[-80:]
    pos = 0
    for item in expected:
        if isinstance(item, tuple):
            code = []
            while True:
                end = lines.find("\n", pos)
                ln = lines[pos:end]
                if end < 0 or not (ln.startswith("        ") and len(ln) == 37 and ln.count("-") == 4):
                    break
                code.append(ln.strip())
                pos = end + 1
            err = on_code(item[1], "\n".join(code))
            if err:
                return err
            continue
        want = item + "\n"
        if not lines.startswith(want, pos):
            return "expected %r, printed %r" % (want, lines[pos:pos + len(want) + 80])
        pos += len(want)
    if pos != len(lines):
        return "printed in addition: %r" % lines[pos:pos + 200]
    return None
