"""C20: the library's calls do what they document, save once per change, and refuse while locked, with any backend."""
import json, os, random
import api, common, gen, ref, tree
from common import Runner, Scratch, finish, Violation

RULE = ("random sequences of all calls of pfp::passwords::Passwords, on two instances in turns, over backends in memory (three key "
        "orders, empty, foreign, half initialized, with damaged values) and over FileIO, with saving failing now and then; every "
        "call the library makes to its backend is recorded. Each result, each change of the backend's data (decrypted by an "
        "independent implementation) and each save is compared with what the documentation of the call says. FileIO itself is "
        "driven with random calls next to a model, every change of the directory being observed. Non-trivial: every call checked.")

PAIN = ["PasswordsLocked"]
MUTATORS = {"reset", "set_alias", "remove_alias", "remove_sites", "set_generated", "set_stored", "set_notes", "remove"}
FLAGS = {"lower": "l", "upper": "u", "number": "d", "symbol": "s"}


class State:
    """What an instance has to hold."""

    def __init__(self, primary=None):
        self.primary = primary      # the one the storage was made with; None: not initialized
        self.open = None            # the one it is unlocked with
        self.sites, self.pw = {}, {}
        self.badsites, self.badpw = set(), set()
        self.hs = self.key = self.salt = None

    def norm(self, s):
        return s[4:] if s.startswith("www.") else s

    def resolve(self, s):
        n = self.norm(s)
        t = self.sites.get(n)
        return n if t is None else t

    def id(self, s, n, r):
        return self.resolve(s), n, ref.norm_rev(r)

    def skey(self, s):
        return ref.site_key(self.hs, s)

    def pkey(self, k):
        return ref.password_key(self.hs, *k)

    def record(self, k):
        e = self.pw[k]
        o = {"site": k[0], "name": k[1], "revision": k[2], "type": e["type"]}
        if e["notes"]:
            o["notes"] = e["notes"]
        if e["type"] == "stored":
            o["password"] = e["password"]
        else:
            o["length"] = e["length"]
            o.update({c: c in e["classes"] for c in FLAGS})
        return o


def plain(key, v):
    p = ref.dec(key, v) if v is not None else None
    try:
        o = json.loads(p) if p is not None else None
    except ValueError:
        return None
    if isinstance(o, dict) and o.get("notes") == "":
        del o["notes"]
    return o


class Session:
    def __init__(self, rng, obs, lib, d, slot, kind):
        self.rng, self.obs, self.lib, self.d, self.slot, self.kind = rng, obs, lib, d, slot, kind
        self.log = []
        self.s = State()
        self.sites = gen.pool(rng, gen.SITES, 6)
        self.sites += ["www." + x for x in rng.sample(self.sites, 2)]
        self.names = gen.pool(rng, gen.NAMES, 4) + ["line\nbreak"]
        self.revs = gen.pool(rng, gen.REVS, 3) + ["1", ""]
        self.primaries = [gen.token(rng, 8), rng.choice(gen.PRIMARIES), ""]
        self.path = os.path.join(d, slot, "storage.json")
        self.gens = 0
        self.obstructed = False
        self.start()

    def fail(self, what, **kw):
        raise Violation(what, backend=self.kind, calls=self.log[-40:], **kw)

    # ---- the backend
    def start(self):
        rng, s = self.rng, self.s
        data = {}
        if self.kind in ("foreign", "load"):
            s.primary = rng.choice(self.primaries)
            sites = [self.s.norm(x) for x in rng.sample(self.sites, 4)]
            es = []
            for x in dict.fromkeys(sites[:3]):
                s.sites[x] = None
                for n in rng.sample(self.names, 2):
                    e = self.entry()
                    s.pw[(x, n, rng.choice(["", "2"]))] = e
            if sites[3] not in s.sites:
                s.sites[sites[3]] = sites[0]
            es = [s.record(k) for k in s.pw]
            text, s.hs, s.key, s.salt = ref.build_storage(s.primary, s.sites, es, salt=os.urandom(rng.choice([16, 16, 16, 1, 7, 40])), style=rng)
            doc = json.loads(text)
            for k in list(s.pw):
                if rng.random() < .15 and self.kind == "foreign":
                    doc["data"][s.pkey(k)] = rng.choice(["x", "", "AAAA_AAAA", doc["data"][s.pkey(k)][:-7]])
                    s.badpw.add(k)
                    del s.pw[k]
            for x in list(s.sites):
                if rng.random() < .1 and self.kind == "foreign":
                    doc["data"][s.skey(x)] = rng.choice(["x", "", "AAAA_AAAA"])
                    s.badsites.add(x)
                    del s.sites[x]
            data = doc["data"]
            if self.kind == "load":
                os.makedirs(os.path.dirname(self.path))
                open(self.path, "w").write(json.dumps(doc))
        elif self.kind == "half":
            data = rng.choice([{"salt": "AAAA"}, {"hmac-secret": "AAAA_AAAA"}, {"other": "x"}, {"Salt": "AAAA", "hmac-secret": "x"}])
        self.reopen(data)

    def reopen(self, data):
        if self.kind == "load":
            r = self.lib.raw("open", self.slot, "load", api.h(self.path))
        elif self.kind == "new":
            r = self.lib.raw("open", self.slot, "new", api.h(self.path))
        else:
            r = self.lib.open_memory(self.slot, data.items(), self.rng.randrange(4))
        if not r.ok or r.calls:
            self.fail("opening gives %r and calls %r" % (r, r.calls))
        self.s.open = None
        self.now = dict(data)
        self.saved = dict(data)
        self.asks()

    def asks(self):
        r = self.call("unlocked")
        self.settle("unlocked", (), r, None)
        if r.value != (self.s.open is not None):
            self.fail("unlocked() is %r" % r.value)
        r = self.call("initialized")
        self.settle("initialized", (), r, None)
        if r.value != ("salt" in self.now and "hmac-secret" in self.now):
            self.fail("initialized() is %r with the keys %r" % (r.value, sorted(self.now)[:5]))

    def obstruct(self):
        """Makes saving the file fail for real: something else is in its place."""
        self.obstructed = True
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        if os.path.exists(self.path):
            os.rename(self.path, self.path + ".aside")
        os.mkdir(self.path)

    def clear_way(self):
        os.rmdir(self.path)
        if os.path.exists(self.path + ".aside"):
            os.rename(self.path + ".aside", self.path)
        self.obstructed = False

    def current(self):
        """-> data in memory (as far as known), data saved"""
        if self.kind in ("load", "new"):
            try:
                doc = json.load(open(self.path + ".aside" if self.obstructed else self.path))
            except FileNotFoundError:
                return {}, {}
            if set(doc) != {"application", "format", "data"} or doc["application"] != "pfp" or doc["format"] != 3:
                self.fail("the file became %r" % doc)
            return doc["data"], doc["data"]
        return self.lib.data(self.slot), self.lib.data(self.slot, "saved")

    # ---- arguments
    def entry(self):
        rng = self.rng
        e = {"notes": rng.choice(["", "", gen.notes(rng), "two\nlines\n", "nul\0inside"])}
        if rng.random() < .6:
            e.update(type="stored", password=rng.choice([gen.secret(rng), "", " ", "a\0b", "line\nline", gen.text(rng)]))
        else:
            e.update(type="generated2", length=rng.choice([1, 4, 16, 24, 100]), classes=gen.classes(rng))
        return e

    def pattern(self, pool):
        rng = self.rng
        t = rng.choice(pool)
        p = rng.choice(["*", "*", "", t, t, t[:1] + "*", "*" + t[-2:], "?" * len(t), "*".join([t[:2], t[3:]])])
        return p if all(ref.wild(p, x) == ref.wild_crate(p, x) for x in pool + [self.s.norm(y) for y in pool]) else "*"

    # ---- one call
    def call(self, op, *args):
        before, saved = self.now, self.saved
        r = self.lib.call(self.slot, op, *args)
        self.log.append("%s%r -> %s%s" % (op, args, r, " calls %r" % [c[0] for c in r.calls] if r.calls else ""))
        self.obs.count("call: " + op)
        self.obs.case((op, args, self.kind, self.s.open is None), True)
        return r

    def settle(self, op, args, r, want, allowed=(), failing=False):
        """Compares a call's result and effects; want: expected value, or names of errors."""
        what = "%s%r" % (op, args)
        now, saved = self.current()
        names = [c[0] + (" failed" if c[1:] == ["failed"] else "") for c in r.calls]
        broken = "flush failed" in names
        if r.panic:
            self.fail("%s panics" % what)
        if self.obstructed and "flush" in names:
            if r.ok:
                self.fail("%s: saving failed, but success is reported" % what)
            if r.err != "FileWriteFailure":
                self.fail("%s: saving failed, what is reported is %r" % (what, r))
            if now != self.now or saved != self.saved:
                self.fail("%s: saving failed, but the file changes" % what)
            if self.lib.call(self.slot, "unlocked").value != (self.s.open is not None):
                self.fail("%s: saving failed, but unlocked() changes" % what)
            self.obs.count("saves that failed for real")
            return False
        if broken:
            if r.ok:
                self.fail("%s: saving failed, but success is reported" % what)
            if r.err != "FileWriteFailure" or "injected failure" not in r.debug:
                self.fail("%s: saving failed, what is reported is %r" % (what, r))
            if saved != self.saved and names.count("flush") == 0:
                self.fail("%s: saving failed, but what is saved changes" % what)
            u = self.lib.call(self.slot, "unlocked").value
            if op == "reset" and self.s.open is None and u:
                self.fail("a failing reset unlocks")
            self.obs.count("saves that failed")
            return False
        if isinstance(want, list):      # errors
            if r.ok or r.err not in want:
                self.fail("%s gives %r instead of %s" % (what, r, " or ".join(want)))
            if now != self.now or saved != self.saved:
                self.fail("%s fails with %s, but changes data" % (what, r.err))
            self.obs.count("error: " + r.err)
            return False
        if not r.ok:
            self.fail("%s fails: %r" % (what, r))
        changed = {k for k in set(now) | set(self.now) if now.get(k) != self.now.get(k)}
        if op not in MUTATORS:
            if r.calls or changed or saved != self.saved:
                self.fail("%s, a query, writes: %r %r" % (what, r.calls, sorted(changed)))
            return True
        if not changed <= set(allowed):
            self.fail("%s changes other data: %r" % (what, sorted(changed - set(allowed))))
        if saved != now:
            self.fail("%s returns without having saved its changes (calls %r)" % (what, names))
        if "flush" in names and any(n in ("set", "remove", "clear") for n in names[names.index("flush"):]):
            self.fail("%s saves a state in between: %r" % (what, names))
        self.now, self.saved = now, saved
        self.obs.count("changes verified")
        return True

    def holds(self, keys=None):
        """The data under the keys (or all of it) is what it should be."""
        s = self.s
        want = {s.skey(x): dict({"site": x}, **({"alias": a} if a is not None else {})) for x, a in s.sites.items()}
        want.update({s.pkey(k): s.record(k) for k in s.pw})
        bad = {s.skey(x) for x in s.badsites} | {s.pkey(k) for k in s.badpw}
        if keys is None:
            keys = set(want) | set(self.now) - {"salt", "hmac-secret"}
        for k in keys:
            if k in bad:
                if k not in self.now:
                    self.fail("an unreadable value is gone")
                continue
            got = plain(s.key, self.now[k]) if k in self.now else None
            w = want.get(k)
            if got != w:
                self.fail("the data has %r instead of %r" % (got, w))
            self.obs.count("values decrypted")

    def fresh_keys(self):
        s = self.s
        s.salt = ref.unb64(self.now["salt"])
        s.key = ref.storage_key(s.primary, s.salt)
        p = ref.dec(s.key, self.now["hmac-secret"])
        if p is None:
            self.fail("after a reset the HMAC secret does not decrypt with the primary password")
        s.hs = ref.unb64(json.loads(p))

    def step(self):
        rng, s = self.rng, self.s
        k = rng.randrange(100)
        S, N, R = (lambda: rng.choice(self.sites)), (lambda: rng.choice(self.names)), (lambda: rng.choice(self.revs))
        if (s.pw or s.badpw) and rng.random() < .6:
            i = rng.choice(sorted(s.badpw) if s.badpw and (not s.pw or rng.random() < .2) else sorted(s.pw))
            sp = [i[0]] + [a for a, t in s.sites.items() if t == i[0]]
            x = rng.choice(sp)
            x = rng.choice([x, x, "www." + x]) if not x.startswith("www.") else "www." + x
            ids = (x, i[1], rng.choice([i[2]] if i[2] else ["", "1"]))
        else:
            ids = (S(), N(), R())
        up = s.open is not None
        if rng.random() < .03:
            self.asks()
        failing = 0
        if self.kind in ("load", "new") and rng.random() < .08:
            self.obstruct()
        elif rng.random() < .05:
            failing = rng.choice([1, 1, 1, 2])
            self.lib.call(self.slot, "fail_flush", str(failing))
        self.act(k, S, N, R, ids, up)
        if failing:
            self.lib.call(self.slot, "fail_flush", "0")
        if self.obstructed:
            self.clear_way()

    def act(self, k, S, N, R, ids, up):
        rng, s = self.rng, self.s
        if not up and k < 60 or k < 2:
            # unlocking
            t = rng.random()
            x = rng.choice(self.primaries + [gen.token(rng)]) if t < .3 else s.primary if s.primary is not None else rng.choice(self.primaries)
            if t > .93:
                x += rng.choice(["x", " ", "\n"])
            if s.primary is None and rng.random() < .7 or rng.random() < .06:
                r = self.call("reset", x)
                old = self.now
                done = self.settle("reset", (x,), r, None, allowed=set(old) | {"salt", "hmac-secret"})
                if not done:
                    return self.recover()
                if set(self.now) != {"salt", "hmac-secret"}:
                    self.fail("after a reset the data has the keys %r" % sorted(self.now))
                if any(self.now[n] == old.get(n) for n in self.now):
                    self.fail("a reset keeps a value")
                self.s = s = State(x)
                s.open = x
                self.fresh_keys()
                return
            r = self.call("unlock", x)
            if s.primary is None:
                if "salt" in self.now and "hmac-secret" in self.now:
                    self.settle("unlock", (x,), r, [r.err or "an error"])
                else:
                    self.settle("unlock", (x,), r, ["StorageNotInitialized"] if "salt" not in self.now else ["StorageNotInitialized", "InvalidBase64"])
            elif x == s.primary:
                if self.settle("unlock", (x,), r, None):
                    s.open = x
            else:
                self.settle("unlock", (x,), r, ["DecryptionFailure"])
            u = self.lib.call(self.slot, "unlocked").value
            if u != (s.open is not None):
                self.fail("after %s unlocked() is %r" % (self.log[-1], u))
            return
        if up and k < 6:
            r = self.call("lock")
            self.settle("lock", (), r, None)
            s.open = None
            if self.lib.call(self.slot, "unlocked").value:
                self.fail("unlocked after lock()")
            return
        L = None if up else PAIN
        i = s.id(*ids)
        if k < 12:
            a = S()
            n = s.norm(a)
            r = self.call("get_alias", a)
            if self.settle("get_alias", (a,), r, L or (None if s.sites.get(n) is not None else ["NoSuchAlias"])) and api.unh(r.value) != s.sites[n]:
                self.fail("get_alias(%r) is %r instead of %r" % (a, api.unh(r.value), s.sites[n]))
        elif k < 24:
            a, b = S(), S()
            n, t = s.norm(a), s.resolve(b)
            r = self.call("set_alias", a, b)
            if up and any(x[0] == n for x in s.badpw):
                return self.resync(r, "set_alias", (a, b))
            want = L
            if up:
                want = []
                if any(x[0] == n for x in s.pw):
                    want.append("SiteHasPasswords")
                if n == t:
                    want.append("AliasToSelf")
                want = want or None
            deps = [x for x, y in s.sites.items() if y == n and x != t]
            if self.settle("set_alias", (a, b), r, want, allowed=[s.skey(x) for x in deps + [n]] if s.hs else []):
                for x in deps + [n]:
                    s.sites[x] = t
                    s.badsites.discard(x)
                self.holds([s.skey(x) for x in deps + [n]])
            elif r.err == "FileWriteFailure":
                self.recover()
        elif k < 30:
            a = S()
            n = s.norm(a)
            r = self.call("remove_alias", a)
            if self.settle("remove_alias", (a,), r, L or (None if s.sites.get(n) is not None else ["NoSuchAlias"]), allowed=[s.skey(n)] if s.hs else []):
                del s.sites[n]
                self.holds([s.skey(n)])
            elif r.err == "FileWriteFailure":
                self.recover()
        elif k < 33:
            empty = [x for x in s.sites if not any(y[0] == x for y in list(s.pw) + list(s.badpw))] + ["never.was", "www.never.was"]
            some = rng.sample(empty, rng.randint(0, min(3, len(empty))))
            r = self.call("remove_sites", *some)
            if not up and not some and r.ok:
                return self.settle("remove_sites", (), r, None)
            if self.settle("remove_sites", tuple(some), r, L, allowed=[s.skey(x) for x in some] if s.hs else []):
                for x in some:
                    s.sites.pop(x, None)
                    s.badsites.discard(x)
                if s.hs:
                    self.holds([s.skey(x) for x in some])
            elif r.err == "FileWriteFailure":
                self.recover()
        elif k < 52:
            e = self.entry()
            e["notes"] = ""
            if e["type"] == "stored":
                op, args = "set_stored", ids + (e["password"],)
            else:
                op, args = "set_generated", ids + (str(e["length"]), "".join(FLAGS[c] for c in e["classes"]))
            r = self.call(op, *args)
            keys = [s.skey(i[0])] * (i[0] not in s.sites) + [s.pkey(i)] if s.hs else []
            if self.settle(op, args, r, L, allowed=keys):
                s.pw[i] = e
                s.badpw.discard(i)
                s.sites.setdefault(i[0], None)
                s.badsites.discard(i[0])
                self.holds(keys)
            elif r.err == "FileWriteFailure":
                self.recover()
        elif k < 58:
            r = self.call("has", *ids)
            if self.settle("has", ids, r, L) and r.value != (i in s.pw or i in s.badpw):
                self.fail("has%r is %r" % (ids, r.value))
        elif k < 68:
            e = s.pw.get(i)
            if up and e and e["type"] != "stored":
                self.gens += 1
                if self.gens > 3:
                    return
            r = self.call("get", *ids)
            if i in s.badpw and up:
                return self.settle("get", ids, r, [r.err or "an error"])
            if self.settle("get", ids, r, L or (None if e else ["KeyMissing"])):
                want = e["password"] if e["type"] == "stored" else ref.generate(s.primary, *i, e["length"], e["classes"])
                if api.unh(r.value) != want:
                    self.fail("get%r is %r instead of %r" % (ids, api.unh(r.value), want))
        elif k < 73:
            r = self.call("get_notes", *ids)
            if i in s.badpw and up:
                return self.settle("get_notes", ids, r, [r.err or "an error"])
            if self.settle("get_notes", ids, r, L or (None if i in s.pw else ["KeyMissing"])) and api.unh(r.value) != s.pw[i]["notes"]:
                self.fail("get_notes%r is %r instead of %r" % (ids, api.unh(r.value), s.pw[i]["notes"]))
        elif k < 80:
            t = rng.choice(["", gen.notes(rng), "two\nlines", "nul\0"])
            r = self.call("set_notes", *ids, t)
            if i in s.badpw and up:
                return self.settle("set_notes", ids, r, [r.err or "an error"])
            if self.settle("set_notes", ids + (t,), r, L or (None if i in s.pw else ["KeyMissing"]), allowed=[s.pkey(i)] if s.hs else []):
                s.pw[i]["notes"] = t
                self.holds([s.pkey(i)])
            elif r.err == "FileWriteFailure":
                self.recover()
        elif k < 86:
            r = self.call("remove", *ids)
            if self.settle("remove", ids, r, L or (None if i in s.pw or i in s.badpw else ["KeyMissing"]), allowed=[s.pkey(i)] if s.hs else []):
                s.pw.pop(i, None)
                s.badpw.discard(i)
                self.holds([s.pkey(i)])
            elif r.err == "FileWriteFailure":
                self.recover()
        elif k < 94:
            a, p = ids[0], self.pattern(self.names)
            r = self.call("list", a, p)
            if not up:
                if not r.panic and r.value:
                    self.fail("list shows something while locked: %r" % r)
                return
            self.settle("list", (a, p), r, None)
            got = []
            for x in r.value:
                o = {y: api.unh(x[y]) for y in ("site", "name", "revision")}
                if x["notes"]:
                    o["notes"] = api.unh(x["notes"])
                if "password" in x:
                    o.update(type="stored", password=api.unh(x["password"]))
                else:
                    o.update(type="generated2", length=x["length"], **{c: f in x["charset"] for c, f in FLAGS.items()})
                got.append(o)
            want = [s.record(x) for x in s.pw if x[0] == s.resolve(a) and ref.wild(p, x[1])]
            f = lambda o: json.dumps(o, sort_keys=True)
            if sorted(map(f, got)) != sorted(map(f, want)):
                self.fail("list(%r, %r) is %r instead of %r" % (a, p, got, want))
        elif k < 98:
            p = self.pattern(self.sites)
            r = self.call("list_sites", p)
            if not up:
                if not r.panic and r.value:
                    self.fail("list_sites shows something while locked: %r" % r)
                return
            self.settle("list_sites", (p,), r, None)
            got = sorted((api.unh(x), api.unh(y) if y is not None else "-none-") for x, y in r.value)
            want = sorted((x, y if y is not None else "-none-") for x, y in s.sites.items() if ref.wild(p, x) or y is not None and ref.wild(p, y))
            if got != want:
                self.fail("list_sites(%r) is %r instead of %r" % (p, got, want))
        elif self.gens < 5:
            self.gens += 1
            t = gen.secret(rng)
            if not up:
                code = ref.make_code(t, b"0123456789abcdef", os.urandom(32))
                self.settle("decode_recovery_code", (code,), self.call("decode_recovery_code", code), L)
                r = self.call("get_recovery_code", *ids, t)
                return self.settle("get_recovery_code", ids, r, ["PasswordsLocked", "StorageNotInitialized", "InvalidBase64"])
            r = self.call("get_recovery_code", *ids, t)
            if len(s.salt) != 16:
                return self.settle("get_recovery_code", ids, r, ["UnexpectedData"])
            if self.settle("get_recovery_code", ids + (t,), r, None):
                code = api.unh(r.value)
                try:
                    got = ref.read_code(code, s.primary)
                except ref.CodeError as e:
                    self.fail("the recovery code %r does not read: %s" % (code, e))
                if got != t:
                    self.fail("the recovery code %r holds %r instead of %r" % (code, got, t))
                salt = os.urandom(16)
                other = rng.random() < .4
                code = ref.make_code(t, salt, ref.storage_key(s.primary + "x" * other, salt))
                r = self.call("decode_recovery_code", code.lower() if rng.random() < .5 else code)
                if self.settle("decode_recovery_code", (code,), r, ["DecryptionFailure"] if other else None) and api.unh(r.value) != t:
                    self.fail("the recovery code %r reads as %r instead of %r" % (code, api.unh(r.value), t))

    def recover(self):
        """A save failed: a program started anew finds what was saved before. If it was FileIO which failed, the instance
        goes on with the data it had before the call, as every further call checks."""
        if self.obstructed:
            return
        now, saved = self.current()
        if saved != self.saved:
            self.fail("after a failed save something else is saved")
        if self.kind == "new" and os.path.exists(self.path):
            self.kind = "load"
        p = self.s.open
        self.reopen(saved)
        if p is not None:
            r = self.call("unlock", self.s.primary)
            if not r.ok:
                self.fail("after a failed save and starting anew unlocking gives %r" % r)
            self.s.open = self.s.primary
        self.obs.count("started anew after a failed save")

    def resync(self, r, op, args):
        """A call on which the documentation says nothing: adopt what happened, as long as nothing else is lost."""
        now, saved = self.current()
        s = self.s
        if r.ok:
            n, t = s.norm(args[0]), s.resolve(args[1])
            deps = [x for x, y in s.sites.items() if y == n and x != t]
            for x in deps + [n]:
                s.sites[x] = t
                s.badsites.discard(x)
            self.now, self.saved = now, saved
        elif r.err == "FileWriteFailure":
            return self.recover()
        elif now != self.now:
            self.fail("%s%r fails and changes data" % (op, args))
        if s.hs:
            self.holds()


def sessions(rng, obs, n):
    with Scratch() as d, api.Lib(d) as lib:
        kinds = ["memory", "foreign", "foreign", "foreign", "new", "load", "half"]
        ss = [Session(rng, obs, lib, d, "i%d" % i, rng.choice(kinds)) for i in range(2)]
        for _ in range(n):
            x = rng.choice(ss)
            x.step()
        for x in ss:
            if x.s.hs:
                x.holds()
            obs.count("sessions over " + x.kind)


# ------------------------------------------------------------------ FileIO
def keytext(rng):
    return rng.choice(["salt", "hmac-secret", "site:x", "", "\"", "\\", "a\nb", "\0", "\u2028", "data", "application", "\U0001f600", "k" * 300, gen.text(rng), gen.token(rng, 3)])


def files(rng, obs, n):
    """Random FileIO calls; what is on disk only changes when it should, and to what it should."""
    with Scratch() as d, api.Lib(d) as lib:
        W = d + "/w"
        os.mkdir(W)
        paths = [W + "/a.json", W + "/b.json", W + "/sub/dir/c.json", "w/rel.json"]
        full = lambda p: os.path.join(d, p)
        slots, saved, disk, log = {}, {}, {}, []
        os.mkdir(W + "/isdir")
        open(W + "/isfile", "w").write("x")
        view = tree.snapshot(W)

        def fail(what):
            raise Violation(what, calls=log[-40:])

        def call(slot, op, *a):
            r = lib.raw("file", slot, op, *[api.h(x) for x in a])
            log.append("%s.%s%r -> %r" % (slot, op, a, r))
            obs.count("FileIO: " + op)
            obs.case((slot, op, a), True)
            if r.panic:
                fail("panic: " + log[-1])
            return r

        for _ in range(n):
            slot = "f%d" % rng.randrange(3)
            k = rng.randrange(20)
            before = view
            flushed = None
            if k == 0 or slot not in slots:
                p = rng.choice(paths)
                if call(slot, "new", p).ok:
                    slots[slot], saved[slot] = (p, {}), {}
            elif k == 1:
                p = rng.choice(paths)
                r = call(slot, "load", p)
                if r.ok != (full(p) in disk):
                    fail("load of %r: %r" % (p, r))
                if r.ok:
                    slots[slot], saved[slot] = (p, dict(disk[full(p)])), dict(disk[full(p)])
                elif r.err != "FileReadFailure":
                    fail("load of a missing file: %r" % r)
            elif k == 2:
                # a file someone else wrote
                p = rng.choice(paths)
                os.makedirs(os.path.dirname(full(p)), exist_ok=True)
                data = {keytext(rng): keytext(rng) for _ in range(rng.randrange(6))}
                good = rng.random() < .6
                doc = [("application", "pfp"), ("format", 3), ("data", data)]
                rng.shuffle(doc)
                text = json.dumps(dict(doc), ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1]))
                if not good:
                    text = rng.choice([text[:-1], text + "x", "", text.replace('"pfp"', '"pfP"'), text.replace(": 3", ": 2").replace("\n", ""), "[]",
                                       text.replace('"data"', '"dat"'), text[:-1] + ', "more": 1}', text.replace('"format": 3', '"format": "3"')])
                    try:
                        o = json.loads(text)
                        good = set(o) == {"application", "format", "data"} and o["application"] == "pfp" and o["format"] == 3 and o["data"] == data
                    except (ValueError, TypeError):
                        pass
                open(full(p), "w").write(text)
                disk.pop(full(p), None)
                log.append("wrote %r to %r" % (text, p))
                before = tree.snapshot(W)
                r = call("probe", "load", p)
                if r.ok != good:
                    fail("load of %r: %r" % (text, r))
                if good:
                    disk[full(p)] = data
                    keys = sorted(api.unh(x) for x in call("probe", "keys").value)
                    if keys != sorted(data) or any(api.unh(call("probe", "get", x).value) != data[x] for x in data):
                        fail("load of %r gives the keys %r" % (text, keys))
                else:
                    if r.err not in ("InvalidJson", "UnexpectedStorageFormat"):
                        fail("load of a broken file: %r" % r)
                    os.unlink(full(p))
                    before = tree.snapshot(W)
            else:
                p, m = slots[slot]
                x = rng.choice(sorted(m)) if m and rng.random() < .6 else keytext(rng)
                if k < 8:
                    v = rng.choice([keytext(rng), gen.token(rng), "v" * rng.choice([1, 5000, 70000])]) if rng.random() < .9 else ""
                    call(slot, "set", x, v)
                    m[x] = v
                elif k < 10:
                    r = call(slot, "remove", x)
                    if r.ok != (x in m) or r.err not in (None, "KeyMissing"):
                        fail("remove(%r): %r" % (x, r))
                    m.pop(x, None)
                elif k == 10:
                    call(slot, "clear")
                    m.clear()
                elif k < 13:
                    r = call(slot, "get", x)
                    if r.ok != (x in m) or r.err not in (None, "KeyMissing") or r.ok and api.unh(r.value) != m[x]:
                        fail("get(%r): %r" % (x, r))
                elif k == 13:
                    if call(slot, "contains_key", x).value != (x in m):
                        fail("contains_key(%r) is wrong" % x)
                elif k == 14:
                    if sorted(api.unh(y) for y in call(slot, "keys").value) != sorted(m):
                        fail("keys() is wrong")
                elif k == 15:
                    q = rng.choice([W + "/isdir", W + "/isfile/x.json", W + "/isfile/y/x.json", W + "/" + "n" * 300])
                    call("odd", "new", q)
                    call("odd", "set", "a", "b")
                    r = call("odd", "flush")
                    want = "CreateDirFailure" if q.endswith("/y/x.json") or q.endswith("isfile/x.json") else "FileWriteFailure"
                    if r.err != want:
                        fail("flush to %r: %r instead of %s" % (q, r, want))
                elif k == 16:
                    # saving fails, and what could not be saved is forgotten
                    f = full(p)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    before = tree.snapshot(W)
                    if os.path.exists(f):
                        os.rename(f, f + ".aside")
                    os.mkdir(f)
                    r = call(slot, "flush")
                    if r.err != "FileWriteFailure":
                        fail("flush to %r, a directory: %r" % (p, r))
                    os.rmdir(f)
                    if os.path.exists(f + ".aside"):
                        os.rename(f + ".aside", f)
                    m.clear()
                    m.update(saved[slot])
                    if sorted(api.unh(y) for y in call(slot, "keys").value) != sorted(m):
                        fail("after a failed flush keys() is wrong")
                    for y in m:
                        r = call(slot, "get", y)
                        if not r.ok or api.unh(r.value) != m[y]:
                            fail("after a failed flush get(%r): %r" % (y, r))
                    obs.count("failed flushes")
                else:
                    r = call(slot, "flush")
                    if not r.ok:
                        fail("flush: %r" % r)
                    flushed = full(p)
                    disk[flushed] = dict(m)
                    saved[slot] = dict(m)
            view = tree.snapshot(W)
            if flushed:
                pairs = []
                try:
                    doc = json.loads(open(flushed).read(), object_pairs_hook=lambda q: pairs.append(q) or dict(q))
                except ValueError as e:
                    fail("the file is not JSON after a flush: %s" % e)
                if doc != {"application": "pfp", "format": 3, "data": slots[slot][1]} or any(len(q) != len(dict(q)) for q in pairs):
                    fail("the file has %r instead of %r" % (doc, slots[slot][1]))
                obs.count("flushed files compared")
            ch = [c for c in tree.changes(before, view) if not (flushed and (os.path.relpath(flushed, W) + os.sep).startswith(c + os.sep))]
            if ch:
                fail("%s changes the file system: %r" % (log[-1][:200], ch[:5]))
            obs.count("directory snapshots compared")


def main():
    common.build_harness()
    r = Runner("C20", 900 if common.THOROUGH else 100)
    m = 60 if common.THOROUGH else 1
    r.run(sessions, [(260,)] * (48 * m), "Passwords")
    r.run(files, [(400,)] * (80 * m), "FileIO")
    return finish(r, "exploration", RULE,
                  ["the backend keeps what it is given until it is told otherwise",
                   "what an instance holds in memory after saving failed is only specified for FileIO"], 5000)
