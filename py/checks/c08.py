"""C08: what is on disk is unintelligible without the primary password, and no nonce or salt is ever reused."""
import base64, hashlib, json, os, math, subprocess, zlib
import cli, common, gen, ref
from cli import P_PRIMARY, P_STORED, P_NOTES, P_CODE
from common import Runner, Scratch, finish, Violation
from store import Store, fail

RULE = ("histories in which every secret (primary password, sites, user names, revisions, notes, stored and generated "
        "passwords, encryption key, HMAC secret) is a unique marker; every file in the storage's directory is searched after "
        "every operation, and after SIGKILL at every file-changing call, for the markers in raw, UTF-16, hex, base64 and "
        "URL forms, also inside base64-decoded values, compressed, or hidden by a constant XORed or added; all (key, nonce) pairs of values and recovery codes, all salts and all "
        "HMAC secrets seen are checked for repetition and gross bias. Non-trivial: a file state with at least one entry.")

SO = os.path.join(common.BUILD, "faultio.so")


def forms(secret):
    b = secret if isinstance(secret, bytes) else secret.encode()
    out = {b, b.hex().encode(), b.hex().upper().encode(), b[::-1]}
    if not isinstance(secret, bytes):
        out |= {secret.encode("utf-16-le"), secret.encode("utf-16-be"), secret.lower().encode(), secret.upper().encode(),
                json.dumps(secret).encode()[1:-1]}
    for pre in range(3):
        e = base64.b64encode(b"\0" * pre + b)
        # characters that depend only on the secret
        lo = [0, 2, 3][pre]
        core = e[lo:len(e) - 4 if (pre + len(b)) % 3 else len(e)]
        if len(core) >= 8:
            out.add(core)
            out.add(core.replace(b"+", b"-").replace(b"/", b"_"))
    return {f for f in out if len(f) >= 6}


def shape(b):
    """What stays the same when the same byte is XORed to all of them, or added to all of them."""
    if len(b) < 2:
        return b"", b""
    n = len(b) - 1
    x = (int.from_bytes(b[:-1], "big") ^ int.from_bytes(b[1:], "big")).to_bytes(n, "big")
    return x, bytes(map((255).__and__, map(int.__sub__, b[1:], b[:-1])))


def inflated(b):
    """Plain compression of any common kind undone."""
    for wbits in (15, 31, -15):
        try:
            o = zlib.decompressobj(wbits)
            t = o.decompress(b, 1 << 20)
            if len(t) >= 6:
                yield t
        except zlib.error:
            pass


class Watch:
    def __init__(self, obs):
        self.secrets = {}
        self.obs = obs

    def add(self, name, secret):
        if len(secret) >= 6:
            b = secret if isinstance(secret, bytes) else secret.encode()
            self.secrets[name] = (secret, forms(secret), [x for x in shape(b) if len(set(x)) > 4] if len(b) >= 8 else [])

    def scan_bytes(self, data, where):
        blobs = [data]
        # every base64 value on its own
        try:
            doc = json.loads(data)
            vals = doc["data"].items()
        except Exception:
            vals = []
        for k, v in vals:
            for part in k.replace("site:", "").split(":") + str(v).split("_"):
                try:
                    blobs.append(base64.b64decode(part, validate=True))
                except Exception:
                    pass
        for b in list(blobs[1:]):
            blobs += inflated(b)
        shapes = [shape(b) for b in blobs]
        for name, (s, fs, sh) in self.secrets.items():
            for j, x in enumerate(sh):
                if any(x in b[j] for b in shapes[0 if len(x) > 9 else 1:]):  # text has few different bytes
                    raise Violation("%s holds %s (%r) hidden only by a constant" % (where, name, s[:40]), content=repr(data[:3000]))
            for f in fs:
                for i, b in enumerate(blobs):
                    if f in b:
                        raise Violation("%s holds %s (%r) %s" % (where, name, s[:40], "readably" if i == 0 else "under plain base64"),
                                        content=repr(data[:3000]))
        self.obs.count("files_scanned")
        self.obs.count("blobs_scanned", len(blobs))

    def scan_dir(self, d, skip=()):
        for base, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(base, f)
                if p in skip:
                    continue
                try:
                    data = open(p, "rb").read()
                except OSError:
                    continue
                self.scan_bytes(data, "the file %r" % os.path.relpath(p, d))
                for name, (s, fs2, _) in self.secrets.items():
                    if any(x in os.fsencode(f) for x in fs2):
                        raise Violation("the file name %r contains %s" % (f, name))


def collect(seen, data, key, obs):
    """(key, nonce) -> value; a nonce with two values is reuse."""
    for k, v in json.loads(data)["data"].items():
        if k == "salt":
            continue
        n, c = ref.split(v)
        note(seen, key, n, c, obs, k)


def note(seen, key, n, c, obs, what):
    h = (key, n)
    old = seen.get(h)
    if old is None:
        seen[h] = (hashlib.sha1(c).digest(), what, len(c))
        obs.count("nonces_seen")
    elif old[0] != hashlib.sha1(c).digest():
        raise Violation("the nonce %s is used for two different values under one key (%r and %r)" % (n.hex(), old[1], what))
    elif old[1] != what:
        raise Violation("the same nonce and ciphertext %s appear in two places (%r and %r)" % (n.hex(), old[1], what))


def bias(samples, what):
    """Gross bias of random strings of equal length: every bit position, and repetition."""
    n = len(samples)
    if len(set(samples)) != n:
        raise Violation("%s repeat: %d of %d are distinct" % (what, len(set(samples)), n))
    size = len(samples[0]) if n else 0
    for i in range(0, size - 7, 2):
        if len({s[i:i + 8] for s in samples}) != n:
            raise Violation("the %s repeat in part: bytes %d to %d" % (what, i, i + 7))
    for i in range(size):
        if n >= 8 and len({s[i] for s in samples}) == 1:
            raise Violation("byte %d of the %s is always the same" % (i, what))
    if n < 24:
        return
    bits = [sum(s[i // 8] >> (i % 8) & 1 for s in samples) for i in range(size * 8)]
    for i, b in enumerate(bits):
        # 9 standard deviations
        if abs(b - n / 2) > 9 * math.sqrt(n) / 2 or (b in (0, n) and n >= 48):
            raise Violation("bit %d of the %s is biased: set in %d of %d" % (i, what, b, n))
    whole = sum(bits)
    t = n * size * 8
    if abs(whole - t / 2) > 9 * math.sqrt(t) / 2:
        raise Violation("the %s are biased: %d of %d bits set" % (what, whole, t))
    # bytes inside one string must differ about as often as random ones do
    if size >= 12:
        same = sum(len(s) - len(set(s)) for s in samples)
        if same > n * size * .3:
            raise Violation("the %s repeat bytes: %d repetitions in %d strings" % (what, same, n))


def kind(_, what, size):
    """Nonces are also looked at apart by what they were used for."""
    w = what if what in ("recovery code", "hmac-secret") else "site record" if what.count(":") == 1 else "password record"
    return "%s-of-%s" % (w.replace(" ", "-"), "<100" if size < 100 else "<1000" if size < 1000 else "<4096" if size < 4096 else "4096+")


def history(rng, obs, mode, ops, batch):
    with Scratch() as d:
        w = Watch(obs)
        primary = rng.choice(["prim-%s ä", "p%s", "%s"]) % gen.token(rng, 12)
        os.mkdir(d + "/s")
        w.add("the primary password", primary)
        with Store(d + "/s", primary, mode, obs=obs) as st:
            st.hist = d + "/hist"
            p = st.plain()
            w.add("the encryption key", p.key)
            w.add("the HMAC secret", p.hmac_secret)
            w.add("the primary password's SHA-256", hashlib.sha256(primary.encode()).digest())
            w.add("the primary password's SHA-1", hashlib.sha1(primary.encode()).digest())
            seen = {}
            sites = ["site%s.com" % gen.token(rng, 8) for _ in range(4)]
            names = ["name%s" % gen.token(rng, 8) for _ in range(3)]
            revs = ["1", "rev%s" % gen.token(rng, 8)]
            for i, s in enumerate(sites):
                w.add("a site name", s[4:])
            for n in names + revs[1:]:
                w.add("a user name or revision", n)
            states = 0
            gens = 0
            last = st.bytes()
            gone = set()
            for i in range(ops):
                if rng.random() < .15:
                    again(rng, st)
                    data = st.bytes()
                    last = vanish(last, data, gone, obs)
                    collect(seen, data, p.key, obs)
                s, n, r = rng.choice(sites), rng.choice(names), rng.choice(revs)
                s = rng.choice(["", "www."]) + s
                k = rng.randrange(10)
                if k < 2:
                    st.add(rng, s, n, r)
                    if gens < 3 and st.model.pw[st.model.id(s, n, r)]["type"] == "generated2":
                        gens += 1
                        w.add("a generated password", st.model.value(st.model.id(s, n, r)))
                elif k < 5:
                    pw = gen.token(rng, rng.choice([8, 16, 30])) + rng.choice(["", "ü", "\"", " x", "x" * rng.choice([64, 200, 480, 1000, 4000, 5000, 20000])])
                    w.add("a stored password", pw)
                    st.add_stored(rng, s, n, pw, r)
                elif k < 7:
                    nt = "note " + gen.token(rng, 10) + rng.choice(["", " more " * 20, " " + "more " * rng.choice([50, 200, 820, 900, 4000])])
                    w.add("notes", nt)
                    st.set_notes(rng, s, n, r, nt)
                elif k == 7:
                    al = rng.choice(sites)
                    st.set_alias(rng, al, s)
                elif k == 8:
                    st.remove(rng, s, n, r)
                else:
                    st.list(rng, codes=True)
                    ok, out, err, _ = st.do(["list", "-r"])
                    codes(out, p, seen, w, obs)
                w.scan_dir(d + "/s")
                data = st.bytes()
                collect(seen, data, p.key, obs)
                target = {ref.password_key(p.hmac_secret, *st.model.id(s, n, r))}
                if k == 7:
                    target = {ref.site_key(p.hmac_secret, st.model.norm(al))}
                kept(last, data, st, p, target, obs)
                last = vanish(last, data, gone, obs)
                states += bool(st.model.pw)
                if mode == "shell" and rng.random() < .05:
                    st.reopen()
                obs.case((d, i), bool(st.model.pw), {"operation": repr(st.history[-1])[:200], "nonces": len(seen)} if i < 3 else None)
            bias([n for _, n in seen], "nonces")
            with open(batch, "a") as f:
                f.write("".join("%s %s\n" % (kind(*x), n.hex()) for (_, n), x in seen.items()))
            obs.count("file_states", states)


def again(rng, st):
    """Takes the storage back to a state it was in: what is encrypted again needs new nonces all the same."""
    if not st.model.pw:
        return
    s, n, r = rng.choice(sorted(st.model.pw))
    e = st.model.pw[s, n, r]
    k = rng.randrange(3)
    if k == 0:
        st.set_notes(rng, s, n, r, "")
        st.set_notes(rng, s, n, r, e.get("notes") or "")
    elif e["type"] == "stored":
        if k == 1:
            st.remove(rng, s, n, r)
        st.add_stored(rng, s, n, e["password"], r)
    else:
        if k == 1:
            st.remove(rng, s, n, r)
        st.add(rng, s, n, r, e["length"], e["classes"])


def vanish(last, data, gone, obs):
    a, b = (set((k, v) for k, v in json.loads(x)["data"].items() if k != "salt") for x in (last, data))
    back = (b - a) & gone
    if back:
        raise Violation("a nonce is used again: the same encrypted value comes back for %r" % sorted(back)[0][0])
    obs.count("values_encrypted_again", len(b - a))
    gone |= a - b
    return data


def kept(last, data, st, p, target, obs):
    """Saving leaves all values alone but the target's and those which mean something else now."""
    a, b = json.loads(last)["data"], json.loads(data)["data"]
    same = 0
    for k in set(a) & set(b):
        if a[k] == b[k]:
            same += 1
        elif k not in target:
            x, y = (ref.dec(p.key, v) if k != "salt" else v for v in (a[k], b[k]))
            if x == y:
                raise Violation("saving encrypts an unchanged value anew: %r" % x[:200], history=[repr(h) for h in st.history[-5:]])
    obs.count("values_left_alone", same)


def codes(out, p, seen, w, obs):
    """Recovery codes are encrypted under the same key: their nonces count as well."""
    cur = []
    for ln in out.decode().split("\n") + [""]:
        if len(ln) == 37 and ln.count("-") == 4:
            cur.append(ln.strip())
        elif cur:
            data = ref.parse_code("\n".join(cur))
            if data[1:17] != p.salt:
                raise Violation("a recovery code with a foreign salt")
            note(seen, p.key, data[17:29], data[29:], obs, "recovery code")
            w.scan_bytes(data, "a recovery code")
            cur = []
            obs.count("recovery_codes")


def fresh(rng, obs, n, batch):
    """Salts and HMAC secrets of newly set primary passwords, nonces of single commands in new processes."""
    salts, secrets, nonces = [], [], []
    with Scratch() as d:
        path = d + "/storage.json"
        for i in range(n):
            primary = "same primary" if i % 2 else "other " + gen.token(rng)
            cli.init_storage(path, primary, cwd=d)
            p = ref.read_storage(open(path).read(), primary)
            salts.append(p.salt)
            secrets.append(p.hmac_secret)
            nonces.append(ref.split(p.raw["hmac-secret"])[0])
            if p.hmac_secret[:16] == p.salt or p.salt in p.hmac_secret or p.salt[:12] in nonces or p.hmac_secret[:12] == nonces[-1]:
                raise Violation("salt, HMAC secret and nonce are not independent")
            obs.case(("fresh", p.salt), True, {"salt": p.salt.hex(), "primary": primary} if i < 2 else None)
            obs.count("storages_created")
            if i % 4 == 3:
                r = cli.run(path, ["add", "a.com", "x"], [(P_PRIMARY, primary)], cwd=d)
                p2 = ref.read_storage(open(path).read(), primary)
                nonces += [ref.split(v)[0] for k, v in p2.raw.items() if k.startswith("site:")]
    with open(batch, "a") as f:
        for s, h in zip(salts, secrets):
            f.write("%s %s\n" % (s.hex(), h.hex()))
        for x in nonces:
            f.write("n %s\n" % x.hex())


def interrupted(rng, obs, op):
    """Whatever a crash leaves behind is as unintelligible."""
    primary = "prim-" + gen.token(rng)
    pw, nt, site, name = (gen.token(rng, 14) for _ in range(4))
    ops = {"add-stored": (["add-stored", "-y", site + ".com", name], [(P_PRIMARY, primary), (P_STORED, pw)]),
           "notes": (["notes", "-s", "there.com", "me"], [(P_PRIMARY, primary), (P_NOTES, nt)]),
           "set-primary": (["set-primary", "-y"], [(cli.P_NEW, primary + "2"), (cli.P_REPEAT, primary + "2")]),
           "alias": (["alias", site, "there.com"], [(P_PRIMARY, primary)])}
    words, dlg = ops[op]
    text = ref.build_storage(primary, {"there.com": None}, [dict(type="stored", site="there.com", name="me", revision="",
                                                               password="oldsecret" + pw)])[0]
    k, more = 1, True
    while more and k < 40:
        with Scratch() as d:
            os.mkdir(d + "/s")
            open(d + "/s/storage.json", "w").write(text)
            env = {"LD_PRELOAD": SO, "FAULTIO_DIR": d + "/s", "FAULTIO_LOG": d + "/log", "FAULTIO_AT": str(k),
                   "FAULTIO_MODE": "killafter", "FAULTIO_ERRNO": "0"}
            r = cli.run(d + "/s/storage.json", words, dlg, cwd=d, env=env)
            more = r.rc < 0
            w = Watch(obs)
            for n, s in (("the primary password", primary), ("a stored password", pw), ("notes", nt), ("a site name", site),
                         ("a user name", name)):
                w.add(n, s)
            w.scan_dir(d + "/s")
            obs.case((op, k), more)
            obs.count("interrupted_states")
        k += 1


def twins(rng, obs, op):
    """The same command on the same storage, at the same time, in a process with the same number and addresses:
    the random numbers still differ."""
    primary = "prim-" + gen.token(rng)
    env = {"LD_PRELOAD": common.build_shim_path("frozen")}
    wrap = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
    text = ref.build_storage(primary, {"there.com": None}, [dict(type="stored", site="there.com", name="me", revision="",
                                                               password="oldsecret")])[0]
    U = (P_PRIMARY, primary)
    words, dlg = {"set-primary": (["set-primary", "-y"], [(cli.P_NEW, primary), (cli.P_REPEAT, primary)]),
                  "add": (["add", "-y", "there.com", "new"], [U]),
                  "add-stored": (["add-stored", "-y", "there.com", "new"], [U, (P_STORED, "the same secret")]),
                  "notes": (["notes", "-s", "there.com", "me"], [U, (P_NOTES, "the same notes")]),
                  "alias": (["alias", "al.com", "there.com"], [U]),
                  "list": (["list", "-r"], [U])}[op]
    seen = {}
    with Scratch() as d:
        for i in range(4):
            path = d + "/storage.json"
            open(path, "w").write(text)
            r = cli.run(path, words, dlg, cwd=d, env=env, wrap=wrap)
            if r.rc != 0 or r.unmet:
                raise Violation("%r with a stopped clock: %r" % (words, r))
            p = ref.read_storage(open(path).read(), primary)
            new = {k: v for k, v in json.loads(open(path).read())["data"].items() if json.loads(text)["data"].get(k) != v}
            vals = [("salt", p.salt), ("HMAC secret", p.hmac_secret)] if op == "set-primary" else []
            vals += [("nonce", ref.split(v)[0]) for k, v in new.items() if k != "salt"]
            if op == "list":
                cur = [x.strip() for x in r.out.decode().split("\n") if len(x) == 37 and x.count("-") == 4]
                vals += [("recovery code's nonce", ref.parse_code("\n".join(cur))[17:29])]
            if not vals:
                raise Violation("%r writes nothing" % (words,))
            for what, v in vals:
                if v in seen:
                    raise Violation("the %s does not come from the system's random numbers: two runs of %r which differ in "
                                    "nothing else give the same %s" % (what, words[0], v.hex()))
                seen[v] = what
            obs.count("random_values_of_identical_runs", len(vals))
        obs.case(("twins", op), True, {"identical_runs_of": op, "values": len(seen)})


def main():
    common.build_cli()
    common.build_shim("faultio")
    r = Runner("C08", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    batch = os.path.join(os.environ.get("PFPV_TMP", "/tmp"), "fresh.txt")
    r.run(history, [("shell", 60, batch)] * (16 * m) + [("oneshot", 12, batch)] * (8 * m), "histories")
    r.run(fresh, [(12, batch)] * (8 * min(m, 10)), "fresh storages")
    common.build_shim("frozen")
    r.run(twins, [(o,) for o in ("set-primary", "add", "add-stored", "notes", "alias", "list")] * min(m, 10), "identical runs")
    r.run(interrupted, [(o,) for o in ("add-stored", "notes", "set-primary", "alias")], "interrupted saves")
    if os.path.exists(batch):
        ls = [x.split() for x in open(batch)]
        try:
            bias([bytes.fromhex(a) for a, b in ls if a != "n" and "-of-" not in a], "salts")
            bias([bytes.fromhex(b) for a, b in ls if a != "n" and "-of-" not in a], "HMAC secrets")
            for c in sorted({a for a, b in ls if "-of-" in a}):
                bias([bytes.fromhex(b) for a, b in ls if a == c], "nonces of " + c)
                r.extra["nonces_" + c] = sum(1 for a, b in ls if a == c)
            bias([bytes.fromhex(b) for a, b in ls if a == "n"], "nonces of new processes")
        except Violation as v:
            r.violations.append(v)
        r.extra["salts_compared"] = sum(1 for a, b in ls if a != "n" and "-of-" not in a)
        r.extra["nonces_of_new_processes_compared"] = sum(1 for a, b in ls if a == "n")
    return finish(r, "exploration", RULE,
                  ["secrecy is judged by the absence of readable forms and by decryption with the reference key only; the strength "
                   "of AES-GCM, HMAC-SHA256 and scrypt is taken for granted",
                   "numbers and sizes of entries are visible by design"], 50)
