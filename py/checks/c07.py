"""C07: the storage file is the documented format, readable and writable by other implementations and other versions."""
import json, os
import common, gen, ref, cli
from common import Runner, Scratch, finish, Violation
from model import Model
from store import Store, fail

RULE = ("files written by the originally released program (golden files) and by an independent implementation (random salts "
        "including all byte values and sizes from 1 to 1000 bytes, HMAC secrets of 1-100 bytes, random key orders, whitespace, JSON escaping styles) are read "
        "through show/notes/alias/list -s -v -r, then changed by commands; files written by the program are read back by the "
        "strict independent reader (structure, key names, sizes, authenticity of every value). Non-trivial: a file with at "
        "least one entry of each type read and rewritten.")


def read_all(st, rng, gens=4):
    """Everything the file holds through the program."""
    m = st.model
    ids = list(m.pw)
    rng.shuffle(ids)
    for s, n, r in ids:
        e = m.pw[(s, n, r)]
        sp = "www." + s
        if e["type"] == "stored" or gens > 0:
            gens -= e["type"] != "stored"
            st.show(rng, sp, n, r)
        st.notes(rng, sp, n, r)
    for a in m.alias:
        st.alias(rng, "www." + a)
    st.list(rng, verbose=True, codes=True)


def mutate(st, rng, n):
    m = st.model
    for i in range(n):
        ids = list(m.pw)
        s, na, r = rng.choice(ids) if ids and rng.random() < .7 else (rng.choice(gen.SITES), rng.choice(gen.NAMES), rng.choice(gen.REVS))
        s = "www." + s
        k = rng.randrange(7)
        if k == 0:
            st.add(rng, s, na, r, rng.randint(4, 24), gen.classes(rng))
        elif k == 1:
            st.add_stored(rng, s, na, gen.secret(rng), r)
        elif k == 2:
            st.remove(rng, s, na, r)
        elif k == 3:
            st.set_notes(rng, s, na, r, gen.notes(rng))
        elif k == 4:
            st.set_alias(rng, rng.choice(gen.SITES), s)
        elif k == 5 and m.alias:
            st.remove_alias(rng, "www." + rng.choice(list(m.alias)))
        else:
            st.notes(rng, s, na, r)
        st.obs.count("mutations_of_foreign_files")


def golden(rng, obs, i):
    g = json.load(open(os.path.join(common.VERIF, "golden", "storages.json")))[i]
    with Scratch() as d:
        with Store(d, g["primary"], rng.choice(["shell", "oneshot"]), create=False, obs=obs) as st:
            open(st.path, "w").write(g["file"])
            st.history.append(("golden file", i))
            for e in g["entries"]:
                k = tuple(e["id"])
                st.model.pw[k] = {x: (tuple(y) if x == "classes" else y) for x, y in e["entry"].items()}
            st.model.alias.update(g["aliases"])
            for e in g["entries"]:
                k = tuple(e["id"])
                ok, out, err, _ = st.do(gen.words("show", gen.rev_flags(rng, k[2] or "1"), ["www." + k[0], k[1]]))
                if not ok or not out.endswith(b"\n" + e["value"].encode() + b"\n"):
                    fail("the password %r of a file written by the released version is %r %r, it was %r" % (k, out, err, e["value"]), st)
                if "code" in e and rng.random() < .7:
                    ok, out, err, unmet = st.do(["add-stored", "-c", "golden.com", "x", "-r", repr(k)],
                                                [(cli.P_CODE, e["code"].replace("\n", " "))])
                    if not ok or unmet:
                        fail("the recovery code of %r from the released version is refused: %r %r" % (k, out, err), st)
                    st.model.add_stored("golden.com", "x", e["value"], repr(k))
                    st.check_file()
                    obs.count("golden_codes")
                obs.count("golden_values")
            read_all(st, rng)
            mutate(st, rng, 6)
            st.reopen()
            read_all(st, rng, 1)
            obs.case(("golden", i, st.history), True, {"golden": i, "entries": len(g["entries"])})


def foreign(rng, obs, mode, n):
    with Scratch() as d:
        primary = rng.choice(gen.PRIMARIES)
        with Store(d, primary, mode, create=False, obs=obs) as st:
            m = st.model
            salt = bytes(rng.choice([rng.randrange(256), rng.randrange(128, 256), 0, 0x7f, 0x80, 0xff]) for _ in range(16))
            hs = bytes(rng.randrange(256) for _ in range(rng.choice([32, 32, 32, 1, 16, 31, 64, 65, 100])))
            es = []
            for _ in range(rng.randint(2, 12)):
                s = m.norm(rng.choice(gen.SITES))
                k = (s, rng.choice(gen.NAMES), ref.norm_rev(rng.choice(gen.REVS)))
                nt = gen.notes(rng) if rng.random() < .5 else ""
                if rng.random() < .5:
                    m.pw[k] = {"type": "stored", "password": gen.secret(rng), "notes": nt}
                else:
                    m.pw[k] = {"type": "generated2", "length": rng.randint(4, 24), "classes": gen.classes(rng), "notes": nt}
            for k, v in m.pw.items():
                e = {"site": k[0], "name": k[1], "revision": k[2], "type": v["type"]}
                if v["notes"] or rng.random() < .3:
                    e["notes"] = v["notes"]
                if v["type"] == "stored":
                    e["password"] = v["password"]
                else:
                    e["length"] = v["length"]
                    e.update({c: c in v["classes"] for c, _ in ref.CLASSES})
                es.append(e)
            used = {k[0] for k in m.pw}
            recs = {s: None for s in used}
            for a in gen.subset(rng, [m.norm(x) for x in gen.SITES], 3):
                if a not in used and a not in m.alias.values():
                    m.alias[a] = rng.choice(sorted(used))
            recs.update(m.alias)
            if rng.random() < .3:
                recs.setdefault("nothing-here.com", None)
            text = ref.build_storage(primary, recs, es, salt=salt, hs=hs, style=rng)[0]
            if rng.random() < .4:
                doc = json.loads(text)
                st.extra = {rng.choice(["sync:%d", "%dsite:", "data%d", "Salt%d", "\u2028%d", "hmac%d", "%d"]) % i: rng.choice(
                    ["", "x", "AAAA_AAAA", "null", "\u0000", json.dumps({"a": 1}), "ä\n\"", doc["data"]["salt"]]) for i in range(rng.randint(1, 4))}
                items = list(doc["data"].items()) + list(st.extra.items())
                rng.shuffle(items)
                doc["data"] = dict(items)
                text = json.dumps(doc)
                obs.count("files_with_data_of_others")
            open(st.path, "w").write(text)
            st.history.append(("file", text[:4000]))
            before = st.bytes()
            read_all(st, rng, 2)
            types = {v["type"] for v in m.pw.values()}
            mutate(st, rng, n)
            after = st.plain()
            if after.salt != salt or after.hmac_secret != hs:
                fail("changing entries changes the salt or the HMAC secret", st)
            st.reopen()
            read_all(st, rng, 1)
            obs.case((salt, mode, st.history), len(types) == 2 and st.bytes() != before,
                     {"mode": mode, "salt": salt.hex(), "hmac_secret_bytes": len(hs), "entries": len(es), "aliases": len(m.alias)})
            obs.count("hmac_secret_bytes_%d" % len(hs))


def salts(rng, obs, sizes):
    """Salts of other sizes: everything but recovery codes, which only hold salts of 16 bytes."""
    for size in sizes:
        with Scratch() as d:
            salt = bytes(rng.randrange(256) for _ in range(size))
            primary = rng.choice(gen.PRIMARIES)
            with Store(d, primary, "shell", create=False, obs=obs) as st:
                m = st.model
                es, hs = [], bytes(rng.randrange(256) for _ in range(rng.choice([1, 20, 32, 33, 64, 65, 128, 300])))
                for i in range(3):
                    e = dict(site="a%d.com" % (i % 2), name="n%d" % i, revision="", notes=gen.notes(rng))
                    if i == 2:
                        e.update(type="generated2", length=9, **{c: True for c, _ in ref.CLASSES})
                        m.pw[e["site"], e["name"], ""] = {"type": "generated2", "length": 9, "classes": tuple(c for c, _ in ref.CLASSES), "notes": e["notes"]}
                    else:
                        e.update(type="stored", password=gen.secret(rng))
                        m.pw[e["site"], e["name"], ""] = {"type": "stored", "password": e["password"], "notes": e["notes"]}
                    es.append(e)
                m.alias["al.com"] = "a1.com"
                text = ref.build_storage(primary, {"a0.com": None, "a1.com": None, "al.com": "a1.com"}, es, salt=salt, hs=hs, style=rng)[0]
                open(st.path, "w").write(text)
                st.history.append(("file with a salt of %d bytes" % size, text[:2000]))
                for e in es:
                    st.show(rng, e["site"], e["name"], "")
                    st.notes(rng, e["site"], e["name"], "")
                st.alias(rng, "al.com")
                st.add_stored(rng, "al.com", "new", gen.secret(rng), "")
                st.set_notes(rng, "a0.com", "n0", "", "other notes")
                st.remove(rng, "a1.com", "n1", "")
                st.list(rng, verbose=True)
                st.show(rng, "a1.com", "new", "")
                after = st.plain()
                if after.salt != salt or after.hmac_secret != hs:
                    fail("changing entries changes the salt or the HMAC secret", st)
                obs.case(("salt", size, len(hs)), True, {"salt_bytes": size, "hmac_secret_bytes": len(hs)})
                obs.count("salts of other sizes")


def vector(rng, obs):
    """The vectors of the repository's unit tests (3 byte salt), through the program."""
    with Scratch() as d:
        data = {
            "salt": "Y2Jh", "hmac-secret": "YWJjZGVmZ2hpamts_Nosk0g9vPYtLPn9QzyFXLQ/1ZuAHVw==",
            "site:fRTOldDD+lTwIBS8G+eUkrIzvNsfdGRSWQXrXqszDHM=": "YWJjZGVmZ2hpamts_b/AA8REorsFjuwlGDYB+KVw/fqoHPv2Ehc7sBIYqhR+ygcsd/t4=",
            "site:fRTOldDD+lTwIBS8G+eUkrIzvNsfdGRSWQXrXqszDHM=:h2pnx6RFyNbAUBLcuQYz9w79/vnf4fgJlY/c+EP44d8=":
                "YWJjZGVmZ2hpamts_b/AH4RUorsFjrQVIEpV2bl5+Yq5RJiTy/BENNw+oFwoqVhC3TzIQ6py/AkQGwMtJimWpGH5/KAJXD1KZq5rzLZBN3j5z2uf/DYqyIx84fhxe1WtKjSImwveR0NfauV/GpDa27wRH7PiEZRmeoJNQ8MV3Bopr61xNEWK0ew=="}
        st = Store(d, "foobar", "oneshot", create=False, obs=obs)
        open(st.path, "w").write(json.dumps({"application": "pfp", "format": 3, "data": data}))
        st.model.pw[("example.com", "blabber", "2")] = {"type": "stored", "password": "asdf", "notes": "hi there!"}
        read_all_no_codes = [lambda: st.show(rng, "example.com", "blabber", "2"), lambda: st.notes(rng, "example.com", "blabber", "2"),
                             lambda: st.list(rng, verbose=True), lambda: st.add_stored(rng, "x.com", "y", "z"),
                             lambda: st.show(rng, "www.x.com", "y"), lambda: st.show(rng, "example.com", "blabber", "2")]
        for f in read_all_no_codes:
            f()
        obs.case("vector", True, {"vector": "unit tests' 3 byte salt"})


def own(rng, obs):
    """What the program writes: sizes and structure, beyond what the strict reader demands."""
    with Scratch() as d:
        with Store(d, rng.choice(gen.PRIMARIES), "shell", obs=obs) as st:
            mutate(st, rng, 12)
            p = st.plain()
            if len(p.salt) != 16 or len(p.hmac_secret) != 32:
                fail("salt of %d bytes, HMAC secret of %d bytes" % (len(p.salt), len(p.hmac_secret)), st)
            for k, v in p.raw.items():
                if k != "salt" and len(ref.split(v)[0]) != 12:
                    fail("value of %r has a nonce of %d bytes" % (k, len(ref.split(v)[0])), st)
            obs.case(st.history, len(st.model.pw) > 2)
            obs.count("own_files_read")


def main():
    common.build_cli()
    r = Runner("C07", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(vector, [()], "unit test vectors")
    r.run(salts, [(x,) for x in ([1, 31, 65], [2, 32, 100], [8, 33, 127], [12, 48, 128], [15, 63, 129], [17, 64, 255], [20, 40, 256], [24, 80, 1000])] * (5 if common.THOROUGH else 1),
          "salts of other sizes")
    r.run(golden, [(i % 4,) for i in range(4 * (6 if common.THOROUGH else 1))], "golden files")
    r.run(foreign, [("shell", 12)] * (24 * m) + [("oneshot", 3)] * (4 * m), "foreign files")
    r.run(own, [()] * (8 * m), "own files")
    return finish(r, "exploration", RULE,
                  ["the golden files in /verif/golden were written by the program built from the base commit"], 10)
