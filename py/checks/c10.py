"""C10: damaged, tampered-with or foreign files are reported; intact entries stay right; nothing crashes or gets lost."""
import base64, json, os
import cli, common, gen, ref
from cli import P_PRIMARY, P_STORED, P_NOTES
from common import Runner, Scratch, finish, Violation
from model import Model

RULE = ("storages with known content are damaged (a) as text: truncation, bit flips, removed/duplicated/swapped pieces, invalid "
        "UTF-8, other JSON types, other format and application markers, nesting; (b) value by value: every way of breaking the "
        "encoding, nonce, ciphertext and tag; (c) authentically encrypted plaintexts of a wrong shape, among them every field of every "
        "record type missing or of another type; (d) replaced by files with other format and application markers; then every "
        "command runs on them. A value shown must be the true one, an intact entry must stay readable, anything else must be an error "
        "message with a failure status, without a panic, and queries must leave the file alone; after changes of other "
        "entries all intact entries must still be there. Non-trivial: a damaged file on which at least one command failed.")

PRIMARY = "tampering primary"


def content(rng):
    m = Model(PRIMARY)
    sites = ["s%d.com" % i for i in range(4)]
    for s in sites:
        for n in gen.subset(rng, ["me", "you", "her"], rng.randint(1, 3)):
            for r in gen.subset(rng, ["", "2"], rng.randint(1, 2)):
                nt = "note " + gen.token(rng) if rng.random() < .5 else ""
                if rng.random() < .8:
                    m.pw[(s, n, r)] = {"type": "stored", "password": "pw-" + gen.token(rng, rng.randint(1, 30)), "notes": nt}
                else:
                    m.pw[(s, n, r)] = {"type": "generated2", "length": rng.randint(4, 24), "classes": gen.classes(rng), "notes": nt}
    m.alias["al.com"] = sites[0]
    m.alias["al2.com"] = sites[1]
    es = []
    for k, v in m.pw.items():
        e = {"site": k[0], "name": k[1], "revision": k[2], "type": v["type"]}
        if v["notes"]:
            e["notes"] = v["notes"]
        if v["type"] == "stored":
            e["password"] = v["password"]
        else:
            e["length"] = v["length"]
            e.update({c: c in v["classes"] for c, _ in ref.CLASSES})
        es.append(e)
    recs = {s: None for s in sites}
    recs.update(m.alias)
    text, hs, key, salt = ref.build_storage(PRIMARY, recs, es, salt=b"0123456789abcdef", style=rng)
    return m, text, hs, key


# ------------------------------------------------------------------ damage to single values
def flip(b, rng):
    if not b:
        return b"\1"
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def odd_plain(rng, e):
    """An authentic plaintext of the wrong shape for the record e (decoded)."""
    o = dict(e)
    k = rng.choice(sorted(o)) if o else None
    c = rng.choice([0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
    if c == 0:
        return rng.choice([b"", b"null", b"[]", b"{}", b"42", b'"text"', b"true", b"{", b"\xff\xfe", b"not json", b"[" * 300])
    if c == 1:
        o.pop(k)
        if k not in ("site", "name", "revision", "type", "password", "length"):  # may be read as absent or off
            o.pop("site")
    elif c == 2:
        o[k] = rng.choice([None, 5, 1.5, [], {}, True])
        if o[k] is None and k == "alias" or isinstance(e[k], bool) and o[k] is True or k == "length" and o[k] == 5:
            o.pop("site")
    elif c == 3:
        return json.dumps(o).encode()[:-1]
    elif c == 4:
        return json.dumps(o).encode() + b"x"
    elif c == 5:
        return json.dumps([o]).encode()
    elif c == 6 and "type" in o:
        o["type"] = rng.choice(["generated", "generated3", "STORED", "", None, 3])
    elif c == 7:
        if "length" in o:
            o["length"] = rng.choice([-1, "16", 16.5, None, 1e300, 2 ** 70])
        else:
            o.pop("site")
    else:
        return json.dumps(o).encode().replace(b'"site"', b'"si\xffte"')
    return json.dumps(o).encode()


def damage(rng, v, key):
    """-> damaged value that is not decryptable to a sound record, description"""
    n, c = ref.split(v)
    k = rng.randrange(20)
    if k == 0:
        return ref.b64(n) + "_" + ref.b64(flip(c, rng)), "bit flipped in the ciphertext"
    if k == 1:
        return ref.b64(flip(n, rng)) + "_" + ref.b64(c), "bit flipped in the nonce"
    if k == 2:
        return ref.b64(n) + "_" + ref.b64(c[:-16] + flip(c[-16:], rng)), "bit flipped in the tag"
    if k == 3:
        return ref.b64(n) + "_" + ref.b64(c[:rng.randrange(len(c))]), "ciphertext cut short"
    if k == 4:
        m = rng.choice([b"", n[:-1], n[:1], n + b"\0", n + n, n * 100])
        return ref.b64(m) + "_" + ref.b64(c), "nonce of %d bytes" % len(m)
    if k == 5:
        return ref.b64(n) + ref.b64(c), "separator missing"
    if k == 6:
        return rng.choice(["", "_", "__", "_" + ref.b64(c), ref.b64(n) + "_", "x", "====_===="]), "degenerate"
    if k == 7:
        s = list(v)
        s[rng.randrange(len(s))] = rng.choice("!$ \n\0ä-😀")
        return "".join(s), "character outside the alphabet"
    if k == 8:
        return ref.b64(n) + "_" + ref.b64(c) + "_" + ref.b64(c), "two separators"
    if k == 9:
        return ref.b64(c[:12]) + "_" + ref.b64(n + c[12:]), "parts mixed up"
    if k == 10:
        return ref.b64(n) + "_" + ref.b64(c + b"\0" * rng.randint(1, 20)), "ciphertext extended"
    if k == 11:
        return ref.b64(n) + "_=" + ref.b64(c), "padding in front"
    if k == 12:
        return v[:rng.randrange(1, len(v))], "text cut short"
    if k == 13:
        return ref.enc(bytes(32), ref.dec(key, v)), "encrypted with another key"
    odd = odd_plain(rng, json.loads(ref.dec(key, v)))
    return ref.enc(key, odd), "authentic plaintext of a wrong shape of %r" % odd


def equivalent(v, w):
    """Different spellings of the same bytes (unused bits of the last base64 character, missing padding)."""
    def parts(x):
        out = []
        for y in x.split("_"):
            y = y.rstrip("=")
            try:
                out.append(base64.b64decode(y + "=" * (-len(y) % 4)))
            except ValueError:
                return None
        return out
    return parts(v) is not None and parts(v) == parts(w)


def check_result(r, what):
    if r.panicked():
        raise Violation("%s: crash: %r" % (what, r))
    if r.rc != 0 and not r.err.strip():
        raise Violation("%s: fails without a message: %r" % (what, r))


def values(rng, obs, victims):
    with Scratch() as d:
        m, text, hs, key = content(rng)
        doc = json.loads(text)
        data = doc["data"]
        ids = {ref.password_key(hs, *k): k for k in m.pw}
        recs = {ref.site_key(hs, s): s for s in {k[0] for k in m.pw} | set(m.alias)}
        broken = {}
        for kk in rng.sample(sorted(set(ids) | set(recs)), victims):
            while True:
                v, how = damage(rng, data[kk], key)
                if v != data[kk] and not equivalent(v, data[kk]):
                    break
            data[kk] = v
            broken[kk] = how
        bad = {ids[k] for k in broken if k in ids}
        badsites = {recs[k] for k in broken if k in recs}
        path = d + "/storage.json"
        with open(path, "w") as f:
            f.write(json.dumps(doc))
        desc = {repr(ids.get(k) or recs.get(k)): h for k, h in broken.items()}
        raw = open(path, "rb").read()
        failed = 0
        with cli.Shell(path, PRIMARY, d + "/h", cwd=d) as sh:
            def cmd(words, dlg=()):
                try:
                    return sh.cmd(words, dlg)
                except Violation as v:
                    v.what = "%r on a storage with damaged values %r: %s" % (words, desc, v.what)
                    raise

            gens = 0
            for k, v in m.pw.items():
                s = k[0]
                via = rng.choice([s] + [a for a, t in m.alias.items() if t == s and a not in badsites])
                if v["type"] != "stored":
                    gens += 1
                R = ["-r", k[2]] if k[2] else []
                want = m.value(k).encode() if k not in bad and (v["type"] == "stored" or gens < 3) else None
                if k in bad or want is not None:
                    out, err, _ = cmd(["show", via, k[1]] + R)
                    if k in bad:
                        failed += 1
                        if not err or b"retrieved" in out:
                            raise Violation("show of the damaged entry %r (%s) gives %r" % (k, desc[repr(k)], out), damage=desc)
                    elif err or not out.endswith(b"\n" + want + b"\n"):
                        raise Violation("show of the intact entry %r gives %r %r although only %r are damaged" % (k, out, err, desc))
                out, err, _ = cmd(["notes", via, k[1]] + R)
                if k in bad:
                    if not err or out:
                        raise Violation("notes of the damaged entry %r (%s) gives %r" % (k, desc[repr(k)], out), damage=desc)
                elif err or (v["notes"].encode() or b"no notes") not in out:
                    raise Violation("notes of the intact entry %r gives %r %r although only %r are damaged" % (k, out, err, desc))
                obs.count("entries_queried")
            for a, t in m.alias.items():
                out, err, _ = cmd(["alias", a])
                if a in badsites:
                    failed += 1
                    if not err or out:
                        raise Violation("the damaged alias record %r (%s) gives %r" % (a, desc[repr(a)], out), damage=desc)
                elif err or t.encode() not in out:
                    raise Violation("the intact alias %r gives %r %r" % (a, out, err), damage=desc)
            if open(path, "rb").read() != raw:
                raise Violation("queries change a damaged storage", damage=desc)
            # changes elsewhere, and repairs
            out, err, _ = cmd(["add", "fresh.com", "x"])
            if err or b"Password added." not in out:
                raise Violation("adding an unrelated entry to a damaged storage fails: %r" % err, damage=desc)
            m.add("fresh.com", "x")
            repaired = rng.sample(sorted(bad), min(len(bad), 2))
            for k in repaired:
                R = ["-r", k[2]] if k[2] else []
                if k[0] in badsites:
                    pass  # writing creates the site record again
                if rng.random() < .5:
                    out, err, _ = cmd(["add-stored", "-y", k[0], k[1]] + R, [(P_STORED, "repaired")])
                    m.add_stored(k[0], k[1], "repaired", k[2] or "1")
                    badsites.discard(k[0])
                else:
                    out, err, _ = cmd(["remove", k[0], k[1]] + R)
                    del m.pw[k]
                if err:
                    raise Violation("the damaged entry %r cannot be replaced or removed: %r" % (k, err), damage=desc)
                bad.discard(k)
            # the listing: exactly the intact entries of sites known to be there
            out, err, _ = cmd(["list", "-v"])
            m2 = m.copy()
            for k in bad:
                del m2.pw[k]
            m2.alias = {a: t for a, t in m.alias.items() if a not in badsites}
            lost = {s for s in badsites if s not in m2.alias.values()}
            full = [x for x in m2.listing("*", "*", verbose=True)]
            for k in list(m2.pw):
                if k[0] in lost:
                    del m2.pw[k]
            want = m2.listing("*", "*", verbose=True)
            got = out.decode("utf-8", "replace").rstrip("\n").split("\n")
            flat = [y for x in want for y in x.split("\n")]
            if err or got != flat:
                raise Violation("list -v on a damaged storage prints %r %r instead of %r" % (got, err, flat), damage=desc)
            obs.count("listings")
        # all intact entries are still in the file
        raw2 = json.loads(open(path).read())["data"]
        for k, v in m.pw.items():
            if k in bad:
                continue
            p = ref.dec(key, raw2.get(ref.password_key(hs, *k), ""))
            if p is None:
                raise Violation("the intact entry %r is lost from the damaged storage after changes of others" % (k,), damage=desc)
            o = json.loads(p)
            if v["type"] == "stored" and o.get("password") != v["password"] or o.get("notes", "") != v["notes"]:
                raise Violation("the intact entry %r became %r" % (k, o), damage=desc)
        for kk in broken:
            k = ids.get(kk)
            if k in bad and raw2.get(kk) != data[kk]:
                raise Violation("the damaged entry %r, possibly recoverable, was changed or dropped" % (k,), damage=desc)
        obs.case(sorted(desc.items()), failed > 0, {"damage": desc, "queries_failed": failed})
        for h in broken.values():
            obs.count("damage: " + h.split(" of ")[0].rstrip("0123456789"))


# ------------------------------------------------------------------ damage to the text
def mangle(rng, text, other):
    b = text.encode()
    k = rng.randrange(22)
    i, j = sorted((rng.randrange(len(b)), rng.randrange(len(b))))
    doc = json.loads(text)
    if k == 0:
        return b[:i], "truncated"
    if k == 1:
        return flip(b, rng), "bit flipped"
    if k == 2:
        return b[:i] + b[j:], "piece removed"
    if k == 3:
        return b[:j] + b[i:], "piece doubled"
    if k == 4:
        return b[:i] + bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 50]))) + b[i:], "random bytes inserted"
    if k == 5:
        return rng.choice([b"", b"\n", b"{}", b"[]", b"null", b"\xef\xbb\xbf" + b, b"\xff" * 20, b"\0" * len(b), b"<html>", b'"pfp"', b"3",
                           b"[" * 100000, b'{"data":' * 50000, b'{"application":"pfp","format":3}', b'{"application":"pfp","format":3,"data":{}}',
                           b"-", b'{"a":1e999999}', b"\xf0\x9f\x98"]), "something else"
    if k == 6:
        doc["format"] = rng.choice([1, 2, 4, 30, 256 + 3, -3, 3.5, "3", None, True, [3], 2 ** 64])
        return json.dumps(doc).encode(), "format %r" % doc["format"]
    if k == 7:
        doc["application"] = rng.choice(["PFP", "pfp ", "", "keepass", 3, None, ["pfp"], {}])
        return json.dumps(doc).encode(), "application %r" % doc["application"]
    if k == 8:
        doc.pop(rng.choice(sorted(doc)))
        return json.dumps(doc).encode(), "top level key missing"
    if k == 9:
        doc["data"] = rng.choice([None, [], "x", 3, list(doc["data"].items())])
        return json.dumps(doc).encode(), "data of another type"
    if k == 10:
        kk = rng.choice(sorted(doc["data"]))
        doc["data"][kk] = rng.choice([None, 3, [], {}, True, [doc["data"][kk]]])
        return json.dumps(doc).encode(), "value of another type"
    if k in (11, 12):
        kk = rng.choice(["salt", "hmac-secret"])
        del doc["data"][kk]
        return json.dumps(doc).encode(), kk + " missing"
    if k == 13:
        doc["data"]["salt"] = rng.choice(["", "x", "!!!!", "AAAA", doc["data"]["salt"][:-1], doc["data"]["salt"][::-1], doc["data"]["salt"] + "AAAA", "ä" * 9])
        return json.dumps(doc).encode(), "salt changed"
    if k in (14, 15, 16):
        key = ref.storage_key(PRIMARY, b"0123456789abcdef")
        h = doc["data"]["hmac-secret"]
        v = rng.choice(
            ["", "_", "AAAA", h[:20], h.replace("_", ""), "AAAA_" + h.split("_")[1], "_" + h.split("_")[1], h.split("_")[0] + "_",
             h.split("_")[0] + "_AAAA", ref.enc(key, b"x"), ref.enc(key, b"{}"), ref.enc(key, b'"!!"'), ref.enc(key, b"\xff"),
             ref.enc(key, b""), ref.enc(key, b"null"), h + "A", h + "_"])
        doc["data"]["hmac-secret"] = v
        return json.dumps(doc).encode(), "hmac-secret changed"
    if k == 17:
        doc["extra"] = 1
        return json.dumps(doc).encode(), "unknown top level key"
    if k == 18:
        o = json.loads(other)
        kk = rng.choice(["salt", "hmac-secret"])
        doc["data"][kk] = o["data"][kk]
        return json.dumps(doc).encode(), kk + " of another storage"
    if k == 19:
        kk = rng.choice(sorted(x for x in doc["data"] if x.startswith("site:")))
        v = doc["data"].pop(kk)
        doc["data"][rng.choice([kk[:-1], kk + ":", kk + ":x", "site:", "site", "", kk.upper(), "x" + kk, kk[5:]])] = v
        return json.dumps(doc).encode(), "key renamed"
    if k == 20:
        return b.replace(b'"data"', b'"Data"') if rng.random() < .5 else b.replace(b"{", b"[", 1), "bracket or key replaced"
    return text.encode("utf-16" if rng.random() < .5 else "utf-32"), "another encoding"


def texts(rng, obs, n):
    with Scratch() as d:
        m, text, hs, key = content(rng)
        other = ref.build_storage("other primary", {}, [], salt=b"fedcba9876543210")[0]
        path = d + "/storage.json"
        st = [k for k in m.pw if m.pw[k]["type"] == "stored"]
        true_lines = set(x for y in m.listing("*", "*", verbose=True) for x in y.split("\n")) | {
            "    Aliases: " + a for a in m.alias} | {"No matching passwords found."}
        for i in range(n):
            raw, how = mangle(rng, text, other)
            if raw == text.encode():
                continue
            with open(path, "wb") as f:
                f.write(raw)
            k = rng.choice(st)
            R = ["-r", k[2]] if k[2] else []
            failed = 0
            for words in rng.sample([["show", k[0], k[1]] + R, ["notes", k[0], k[1]] + R, ["list", "-v"], ["alias", "al.com"],
                                     ["remove", "nosuch.com", "x"], ["shell", "-s", d + "/h"]], 2):
                what = "%r on a storage with: %s" % (words, how)
                if words[0] == "shell":
                    r = shell(path, words, d)
                else:
                    r = cli.run(path, words, [(P_PRIMARY, PRIMARY)], cwd=d)
                check_result(r, what)
                obs.count("commands_on_damaged_text")
                out = r.out[len(P_PRIMARY):] if r.out.startswith(P_PRIMARY) else r.out
                failed += r.rc != 0
                if words[0] == "show" and r.rc == 0 and not out.endswith(b"\n" + m.value(k).encode() + b"\n"):
                    raise Violation("%s: shows %r, the password is %r" % (what, out, m.value(k)), file=repr(raw[:3000]))
                if words[0] == "notes" and r.rc == 0 and (m.pw[k]["notes"].encode() or b"no notes") not in out:
                    raise Violation("%s: shows %r, the notes are %r" % (what, out, m.pw[k]["notes"]), file=repr(raw[:3000]))
                if words[0] == "alias" and r.rc == 0 and b"for 's0.com'" not in out:
                    raise Violation("%s: shows %r" % (what, out), file=repr(raw[:3000]))
                if words[0] == "remove" and r.rc == 0:
                    raise Violation("%s: success" % what, file=repr(raw[:3000]))
                if words[0] == "list" and r.rc == 0:
                    for ln in out.decode("utf-8", "replace").rstrip("\n").split("\n"):
                        if ln not in true_lines:
                            raise Violation("%s: lists %r, which never was in the storage" % (what, ln), file=repr(raw[:3000]))
                if words[0] != "list" and open(path, "rb").read() != raw:
                    raise Violation("%s: changes the file" % what, file=repr(raw[:3000]))
                if words[0] == "list" and r.rc != 0 and open(path, "rb").read() != raw:
                    raise Violation("%s: fails and changes the file" % what, file=repr(raw[:3000]))
                if words[0] == "list":
                    with open(path, "wb") as f:
                        f.write(raw)
            left = sorted(x for x in os.listdir(d) if x not in ("storage.json", "h"))
            if left:
                raise Violation("a damaged storage (%s) makes files appear: %r" % (how, left))
            obs.case((how, raw), failed > 0, {"damage": how, "failed": failed} if i < 2 else None)
            obs.count("text: " + how.split(" ")[0])


def shell(path, words, d):
    """A session that lists; its commands fail one by one, so the exit status says nothing."""
    with cli.Proc(["--stdin-passwords", "-c", path] + words, cwd=d) as p:
        p.line("list")
        p.line(PRIMARY)
        p.line("exit")
        rc = p.finish()
        return cli.Result(words, rc, b"", p.err, None)


SHAPES = {"stored": {"type": "stored", "site": "a.com", "name": "x", "revision": "", "password": "shapely", "notes": "noted"},
          "generated": {"type": "generated2", "site": "a.com", "name": "x", "revision": "", "length": 16, "lower": True, "upper": False,
                        "number": True, "symbol": True, "notes": "noted"}}
ANY = [None, 5, -1, 1.5, True, [], {}, "", "16", ["a.com"], {"x": "y"}]


def malformed():
    """-> (kind, record name, changed record, what is wrong): one thing wrong with each."""
    out = []
    for t, rec in SHAPES.items():
        for f in rec:
            if f not in ("notes", "lower", "upper", "number", "symbol"):    # these may be left out
                out.append((t, {k: v for k, v in rec.items() if k != f}, "no " + f))
            for v in ANY:
                if isinstance(v, str) and (isinstance(rec[f], str) and f != "type") or f == "notes" and v is None:
                    continue
                if isinstance(v, bool) and isinstance(rec[f], bool) or f == "length" and v == 5:
                    continue
                out.append((t, dict(rec, **{f: v}), "%s %r" % (f, v)))
            out.append((t, {(k.upper() if k == f else k): v for k, v in rec.items()}, f + " in capitals")
                       if f not in ("notes", "lower", "upper", "number", "symbol") else (t, [rec], "in a list"))
        for v in ("STORED", "stored2", "store", "generated", "generated3", "generated1", "Generated2", "generated2 "):
            out.append((t, dict(rec, type=v), "type %r" % v))
        out.append((t, {"password": rec}, "nested"))
    out.append(("stored", dict(SHAPES["stored"], type="generated2"), "type of the other kind"))
    out.append(("generated", dict(SHAPES["generated"], type="stored"), "type of the other kind"))
    for v in (16.5, 16.0, -16, 2 ** 64, 1e30):
        out.append(("generated", dict(SHAPES["generated"], length=v), "length %r" % v))
    return out


def shapes(rng, obs):
    """Every record type with every field missing or of a wrong type, authentically encrypted: errors, never made-up values."""
    with Scratch() as d:
        path = d + "/storage.json"
        recs = malformed()
        good = dict(SHAPES["stored"], name="good", notes="fine")
        text, hs, key, salt = ref.build_storage(PRIMARY, {"a.com": None}, [good], style=rng)
        doc = json.loads(text)
        for i, (t, r, how) in enumerate(recs):
            n = "n%d" % i
            p = json.dumps(r).replace('"x"', '"%s"' % n)
            doc["data"][ref.password_key(hs, "a.com", n, "")] = ref.enc(key, p.encode())
        sites = []
        for v in ANY + ["a.com"]:
            s = "al%d.com" % len(sites)
            full = {"site": s, "alias": "a.com"}
            for o in [dict(full, site=v), dict(full, alias=v), dict(full, extra=v), {"alias": v}, [full, v], v, {"Site": s, "alias": "a.com"}]:
                if not isinstance(o, dict) or not (isinstance(o.get("site"), str) and (isinstance(o.get("alias"), str) or o.get("alias", 0) is None)) or "extra" in o:
                    s2 = "al%d.com" % len(sites)
                    p = json.dumps(o).replace(s, s2)
                    sites.append((s2, p))
                    doc["data"][ref.site_key(hs, s2)] = ref.enc(key, p.encode())
        raw = json.dumps(doc)
        open(path, "w").write(raw)
        with cli.Shell(path, PRIMARY, d + "/h", cwd=d) as sh:
            for i, (t, r, how) in enumerate(recs):
                for w in ("show", "notes"):
                    out, err, _ = sh.cmd([w, "a.com", "n%d" % i])
                    if not err or b"retrieved" in out or w == "notes" and out:
                        raise Violation("%s of a %s entry with %s gives %r %r" % (w, t, how, out, err), record=r)
                obs.case((t, how), True)
                obs.count("malformed records")
            for s, p in sites:
                out, err, _ = sh.cmd(["alias", s])
                if not err or out:
                    raise Violation("alias of a site with the record %s gives %r %r" % (p, out, err))
                obs.case(p, True)
                obs.count("malformed records")
            out, err, _ = sh.cmd(["show", "a.com", "good"])
            if err or not out.endswith(b"\nshapely\n"):
                raise Violation("show of an intact entry among malformed ones gives %r %r" % (out, err))
            if open(path).read() != raw:
                raise Violation("queries change a storage with malformed records")
            out, err, _ = sh.cmd(["list", "-v"])
            if err or out.decode() != "Passwords for a.com:\n    good (stored)\n        Notes: fine\n":
                raise Violation("list -v of a storage with malformed records prints %r %r" % (out, err))


FORMATS = [0, 1, 2, 4, 5, 13, 23, 33, 43, 300, 303, 259, 65539, 2 ** 32 + 3, 2 ** 64 + 3, -3, -253, 3.5, 3.0, 3e1, "3", None, True, [3], {"3": 3}, []] + list(range(30, 40))
APPS = ["pfpx", "pfp2", "xpfp", "PFP", "Pfp", "pfp ", " pfp", "", "pf", "p", "pfp\0", "pfp\n", "pfp-cli", "pain-free-passwords", "pfp/2", "pfppfp", 3, None, True,
        ["pfp"], {"pfp": 1}, []]


def markers(rng, obs, part, parts):
    """Files of other applications and formats."""
    with Scratch() as d:
        m, text, hs, key = content(rng)
        doc = json.loads(text)
        path = d + "/storage.json"
        for i, (f, v) in enumerate([("format", x) for x in FORMATS] + [("application", x) for x in APPS]):
            if i % parts != part:
                continue
            o = dict(doc)
            o[f] = v
            raw = json.dumps(o)
            open(path, "w").write(raw)
            words, dlg = rng.choice([(["list"], []), (["add", "new.com", "x"], []), (["show", "s0.com", "me"], []), (["alias", "al.com"], []),
                                     (["add-stored", "-y", "s0.com", "me"], [(P_STORED, "x")])])
            r = cli.run(path, words, [(P_PRIMARY, PRIMARY)] + dlg, cwd=d)
            what = "%r on a file with %s %r" % (words, f, v)
            check_result(r, what)
            if r.rc == 0:
                raise Violation("%s succeeds: %r" % (what, r))
            if open(path).read() != raw:
                raise Violation("%s changes the file" % what)
            obs.case((f, v), True)
            obs.count("foreign " + f)


def other_files(rng, obs):
    """No storage at all, or something else in its place."""
    with Scratch() as d:
        os.mkdir(d + "/dir")
        open(d + "/empty", "w").close()
        os.symlink("nowhere", d + "/dangling")
        os.symlink("loop", d + "/loop")
        open(d + "/file", "w").write("x")
        for path in ("missing", "dir", "empty", "dangling", "loop", "file/storage.json", "missing/storage.json", "x" * 300):
            for words in (["show", "a", "b"], ["list"], ["add", "a", "b"], ["shell", "-s", d + "/h"], ["alias", "a"]):
                r = cli.run(d + "/" + path, words, [(P_PRIMARY, None)], cwd=d)
                check_result(r, "%r with %s as storage" % (words, path))
                if r.rc == 0 or r.unmet is None:
                    raise Violation("%r with %s as storage: %r" % (words, path, r))
                obs.case((path, words), True)
        if sorted(os.listdir(d)) != ["dangling", "dir", "empty", "file", "loop"]:
            raise Violation("files appeared: %r" % sorted(os.listdir(d)))


def main():
    common.build_cli()
    r = Runner("C10", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(values, [(rng,) for rng in [1, 2, 3, 4, 6, 8, 10]] * (12 * m), "damaged values")
    r.run(texts, [(14,)] * (32 * m), "damaged text")
    r.run(other_files, [()], "no storage")
    r.run(shapes, [()] * (m + 1), "malformed records")
    r.run(markers, [(i, 16) for i in range(16)], "foreign files")
    return finish(r, "exploration", RULE,
                  ["exchanging intact values between keys of one storage is not detectable in this format and not claimed",
                   "authentic records with impossible numbers (length 0, no character class) are not covered",
                   "listing may drop site records under which nothing readable is left"], 50)
