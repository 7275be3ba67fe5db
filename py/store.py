"""A storage driven through the CLI and shadowed by the model: every operation's outcome and the
decrypted file are compared with what the model says."""
import hashlib, json, os
import cli, gen, ref
from cli import P_PRIMARY, P_STORED, P_NOTES, P_OVERWRITE
from common import Violation
from model import Model, compare_listing


def fail(what, store, **kw):
    raise Violation(what, history=[repr(h) for h in store.history[-60:]], primary=store.primary, **kw)


def cleanup_error(before, after, primary, extra=None):
    """What a listing did wrong to the file: it may drop records of sites which hold nothing and are no aliases."""
    if before == after:
        return None
    a, b = json.loads(before), json.loads(after)
    pa, pb = ref.read_storage(before.decode(), primary, extra), ref.read_storage(after.decode(), primary, extra)
    gone = set(pa.sites) - set(pb.sites)
    if not gone:
        return "rewrites the storage although there is nothing to clean up"
    for s in gone:
        if pa.sites[s] is not None or any(k[0] == s for k in pa.passwords):
            return "drops the record of the site %r, which is in use" % s
    keys = set(a["data"]) - {ref.site_key(pa.hmac_secret, s) for s in gone}
    if {k: a["data"][k] for k in keys} != b["data"]:
        return "changes more of the storage than dropping the records of unused sites"
    return None


class Store:
    extra = None    # data of other implementations in the file

    def __init__(self, d, primary, mode="shell", name="storage.json", create=True, obs=None, env=None):
        self.dir, self.primary, self.mode = d, primary, mode
        self.path = os.path.join(d, name)
        self.hist = os.path.join(d, "history.txt")
        self.model = Model(primary)
        self.history = []
        self.obs = obs
        self.env = env
        self.shell = None
        if create:
            cli.init_storage(self.path, primary, cwd=d, env=env)
            self.history.append(("set-primary", primary))

    # ---- running commands
    def do(self, words, dialogue=()):
        """-> ok, stdout after the prompts, stderr, unmet prompt"""
        self.history.append((list(words), [r for _, r in dialogue]))
        if self.obs:
            self.obs.count("commands")
        if self.mode == "shell":
            if self.shell is None:
                self.shell = cli.Shell(self.path, self.primary, self.hist, cwd=self.dir, env=self.env)
            try:
                out, err, unmet = self.shell.cmd(words, dialogue)
            except Violation as v:
                v.replay["history"] = [repr(h) for h in self.history[-60:]]
                raise
            if out.startswith(P_PRIMARY):
                out = out[len(P_PRIMARY):]
            return not err, out, err, unmet
        r = cli.run(self.path, words, [(P_PRIMARY, self.primary)] + list(dialogue), cwd=self.dir, env=self.env)
        out = r.out
        if out.startswith(P_PRIMARY):
            out = out[len(P_PRIMARY):]
        if r.panicked():
            fail("%r panics: %r" % (words, r.err[-400:]), self)
        return r.rc == 0, out, r.err, r.unmet

    def relock(self):
        if self.shell:
            self.history.append("lock")
            out, err, _ = self.shell.lock()
            if err:
                fail("lock fails: %r" % err, self)

    def reopen(self):
        """Ends the process; the next command starts a new one."""
        if self.shell:
            self.history.append("restart")
            rc = self.shell.close()
            self.shell = None
            if rc != 0:
                fail("the shell exits with status %s" % rc, self)

    def close(self):
        if self.shell:
            self.shell.p.kill()
            self.shell = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- observing
    def bytes(self):
        with open(self.path, "rb") as f:
            return f.read()

    def plain(self):
        try:
            return ref.read_storage(self.bytes().decode("utf-8"), self.primary, self.extra)
        except (ref.FormatError, UnicodeDecodeError) as e:
            fail("the storage file is not readable after the last operation: %s" % e, self)

    def check_file(self, what="after the last operation"):
        d = self.model.diff(self.plain())
        if self.obs:
            self.obs.count("file_states_compared")
        if d:
            fail("stored data differs from what the operations amount to %s: %s" % (what, "; ".join(d[:4])), self)

    # ---- operations; each verifies its outcome
    def _mutate(self, words, dialogue, expect, message, before):
        ok, out, err, unmet = self.do(words, dialogue)
        if unmet is not None:
            fail("%r never asked %r" % (words, unmet), self)
        if ok != expect:
            fail("%r %s although it should %s: stdout %r stderr %r" % (
                words, "succeeds" if ok else "fails", "succeed" if expect else "be refused", out[-300:], err[-300:]), self)
        if expect and not out.endswith(message):
            fail("%r does not report %r: %r" % (words, message, out[-300:]), self)
        if not expect and self.bytes() != before:
            fail("%r fails but changes the storage file" % (words,), self)
        self.check_file()
        return out

    def _consent(self, rng, exists):
        """-> flags, dialogue, proceeds"""
        if not exists:
            return (["-y"] if rng.random() < .1 else []), [], True
        k = rng.randrange(6)
        if k < 3:
            return [rng.choice(["-y", "--assume-yes"])], [], True
        if k == 3:
            return [], [(P_OVERWRITE, rng.choice(["y", "yes", "Y", "YES"]))], True
        return [], [(P_OVERWRITE, rng.choice(["n", "no", "", "N"]))], False

    def add(self, rng, site, name, rev="1", length=16, cl=("lower", "upper", "number", "symbol")):
        before = self.bytes()
        flags, dlg, go = self._consent(rng, self.model.has(site, name, rev))
        fl = gen.rev_flags(rng, rev) + gen.class_flags(rng, cl) + flags
        if length != 16 or rng.random() < .2:
            fl += [rng.choice(["-l", "--length"]), str(length)]
        w = gen.words("add", fl, [site, name])
        if not go:
            return self._declined(w, dlg, before)
        self.model.add(site, name, rev, length, cl)
        self._mutate(w, dlg, True, b"Password added.\n", before)

    def _declined(self, w, dlg, before):
        ok, out, err, unmet = self.do(w, dlg)
        if unmet is not None:
            fail("%r never asked before overwriting" % (w,), self)
        if b"Password added" in out:
            fail("%r reports success although overwriting was declined" % (w,), self)
        if self.bytes() != before:
            fail("%r changes the storage file although overwriting was declined" % (w,), self)

    def add_stored(self, rng, site, name, password, rev="1"):
        before = self.bytes()
        flags, dlg, go = self._consent(rng, self.model.has(site, name, rev))
        w = gen.words("add-stored", gen.rev_flags(rng, rev) + flags, [site, name])
        if not go:
            return self._declined(w, dlg, before)
        self.model.add_stored(site, name, password, rev)
        typed = rng.choice(["", "", " ", "\t"]) + password + rng.choice(["", "", "  ", "\r"])
        self._mutate(w, dlg + [(P_STORED, typed)], True, b"Password added.\n", before)

    def remove(self, rng, site, name, rev="1"):
        before = self.bytes()
        ok = self.model.remove(site, name, rev)
        self._mutate(gen.words("remove", gen.rev_flags(rng, rev), [site, name]), [], ok, b"Password removed.\n", before)

    def set_notes(self, rng, site, name, rev, text):
        before = self.bytes()
        ident = self.model.id(site, name, rev)
        old = self.model.pw.get(ident, {}).get("notes")
        ok = self.model.notes(site, name, rev, text)
        w = gen.words("notes", ["-s"] + gen.rev_flags(rng, rev), [site, name])
        out = self._mutate(w, [(P_NOTES, text)] if ok else [], ok,
                           b"Notes stored.\n" if text else b"Notes removed.\n", before)
        if ok:
            self._notes_shown(w, out, old)

    def _notes_shown(self, w, out, text):
        want = (b"Notes for this password: " + text.encode() + b"\n") if text else \
            b"Currently no notes are stored for this password.\n"
        if not out.startswith(want):
            fail("%r shows other notes than %r: %r" % (w, text, out[:300]), self)

    def notes(self, rng, site, name, rev="1"):
        before = self.bytes()
        e = self.model.pw.get(self.model.id(site, name, rev))
        w = gen.words("notes", gen.rev_flags(rng, rev), [site, name])
        ok, out, err, _ = self.do(w)
        if ok != (e is not None):
            fail("%r %s" % (w, "succeeds for an entry that does not exist: %r" % out if ok else
                            "fails for an existing entry: %r" % err), self)
        if ok:
            self._notes_shown(w, out, e["notes"])
            if out.count(b"\n") != 1 + e["notes"].count("\n"):
                fail("%r prints more than the notes: %r" % (w, out[:300]), self)
        self._unchanged(w, before)

    def show(self, rng, site, name, rev="1"):
        before = self.bytes()
        ident = self.model.id(site, name, rev)
        w = gen.words("show", gen.rev_flags(rng, rev), [site, name])
        ok, out, err, _ = self.do(w)
        if ok != (ident in self.model.pw):
            fail("%r %s" % (w, "shows a password for an entry that does not exist: %r" % out if ok else
                            "fails for an existing entry: %r" % err), self)
        if ok:
            want = b"\n" + self.model.value(ident).encode() + b"\n"
            if not (b"\n" + out).endswith(want):
                fail("%r shows %r instead of %r" % (w, out[-300:], want), self)
            if self.obs:
                self.obs.count("passwords_shown")
        self._unchanged(w, before)

    def _unchanged(self, w, before):
        if self.bytes() != before:
            fail("%r is a query but changes the storage file" % (w,), self)

    def set_alias(self, rng, site, target):
        before = self.bytes()
        ok = self.model.set_alias(site, target)
        self._mutate(gen.words("alias", [], [site, target]), [], ok, b"Alias added.\n", before)

    def remove_alias(self, rng, site):
        before = self.bytes()
        ok = self.model.remove_alias(site)
        self._mutate(gen.words("alias", [rng.choice(["-r", "--remove"])], [site]), [], ok, b"Alias removed.\n", before)

    def alias(self, rng, site):
        before = self.bytes()
        t = self.model.alias.get(self.model.norm(site))
        w = gen.words("alias", [], [site])
        ok, out, err, _ = self.do(w)
        if ok != (t is not None):
            fail("%r %s" % (w, "reports an alias that does not exist: %r" % out if ok else "fails for an alias: %r" % err), self)
        if ok and out != ("'%s' is an alias for '%s'.\n" % (site, t)).encode():
            fail("%r reports %r, the alias target is %r" % (w, out, t), self)
        self._unchanged(w, before)

    def list(self, rng, domain="*", name="*", show=False, verbose=False, codes=False):
        w = ["list"]
        if show:
            w.append(rng.choice(["-s", "--show"]))
        if verbose:
            w.append(rng.choice(["-v", "--verbose"]))
        if codes:
            w.append(rng.choice(["-r", "--recovery"]))
        pos = []
        if (domain, name) != ("*", "*") or rng.random() < .2:
            pos = [domain] if name == "*" and rng.random() < .5 else [domain, name]
        w = gen.words(w[0], w[1:], pos)
        before = self.bytes()
        ok, out, err, _ = self.do(w)
        if not ok:
            fail("%r fails: %r" % (w, err), self)
        e = cleanup_error(before, self.bytes(), self.primary, self.extra)
        if e:
            fail("%r %s" % (w, e), self)

        def on_code(ident, text):
            try:
                got = ref.read_code(text, self.primary)
            except ref.CodeError as e:
                return "recovery code of %r is no valid code (%s): %r" % (ident, e, text)
            if got != self.model.pw[ident]["password"]:
                return "recovery code of %r decodes to %r" % (ident, got)
            if self.obs:
                self.obs.count("recovery_codes_decoded")
            return None

        want = self.model.listing(domain, name, show, verbose, {} if codes else None)
        d = compare_listing(want, out, on_code)
        if d:
            fail("%r: %s" % (w, d), self, printed=repr(out[:3000]))
        if self.obs:
            self.obs.count("listings_compared")
        self.check_file("after a listing")
