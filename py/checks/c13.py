"""C13: nothing existing is overwritten without the user's consent, and consent is only asked for when there is something."""
import os
import cli, common, gen, ref
from cli import P_CODE, P_NEW, P_OVERWRITE, P_PRIMARY, P_REPEAT, P_RESET, P_STORED
from common import Runner, Scratch, finish, Violation
from model import Model
from tree import snapshot, changes

RULE = ("add, add-stored (typed and from a recovery code) and set-primary on existing and missing targets, the target spelled "
        "in every equivalent way (www., aliases, revision 1, empty or left out) and in near misses, readable or not; answers "
        "yes, no, default, invalid ones first, end of input, or --assume-yes. Asked exactly if there is something to lose, "
        "before any secret is asked for; without a yes every byte stays; with it exactly the target is replaced. "
        "Non-trivial: a case in which the question came up.")

YES = ["y", "yes", "Y", "YES", "Yes", " y ", "yEs"]
NO = ["n", "no", "N", "NO", "", "", " ", "No", "\t"]
INVALID = ["maybe", "yess", "ye", "1", "true", "ja", "ok", "nope", "yes!", "y y", "\u00fd", "yes no", "-y", "Overwrite", "\u0443"]
WORLD_SITES = ["a.com", "b.com", "www.c.com", "A.com"]


def answers(rng, eof=False):
    """-> replies, consent"""
    out = [rng.choice(INVALID) for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 1, 3, 5, 12, 100] if rng.random() < .97 else [1000]))]
    k = rng.randrange(5 if eof else 4)
    if k < 2:
        return out + [rng.choice(YES)], True
    if k < 4:
        return out + [rng.choice(NO)], False
    return out + [None], False


def word(t):
    return not t.startswith("-")


def world(rng, primary):
    m = Model(primary)
    more = [s for s in gen.pool(rng, gen.SITES, 3) if word(s) and s not in ("al.com", "bl.com")]
    names = [n for n in gen.pool(rng, gen.NAMES, 2) if word(n)]
    revs = list({ref.norm_rev(r) for r in gen.pool(rng, gen.REVS, 2) if word(r)})
    for s in WORLD_SITES + more:
        for n in ["me", "x"] + names:
            for r in ["", "2"] + revs:
                if rng.random() < .6:
                    if rng.random() < .6:
                        m.pw[(s, n, r)] = {"type": "stored", "password": "pw " + gen.token(rng), "notes": rng.choice(["", "note"])}
                    else:
                        m.pw[(s, n, r)] = {"type": "generated2", "length": 10, "classes": ("lower", "number"), "notes": ""}
    m.alias = {"al.com": "a.com", "bl.com": "b.com"}
    es = []
    for k, v in m.pw.items():
        e = dict(type=v["type"], site=k[0], name=k[1], revision=k[2])
        if v["notes"]:
            e["notes"] = v["notes"]
        if v["type"] == "stored":
            e["password"] = v["password"]
        else:
            e["length"] = v["length"]
            e.update({c: c in v["classes"] for c, _ in ref.CLASSES})
        es.append(e)
    recs = {k[0]: None for k in m.pw}
    recs.update({"a.com": None, "b.com": None})
    recs.update(m.alias)
    return m, es, recs


def close(rng, m, k):
    """Something else than k, hardly."""
    k = list(k)
    i = rng.randrange(3)
    k[i] = gen.variant(rng, k[i])
    if not all(map(word, k)):
        return spelled(rng, m, rng.choice(sorted(m.pw)))
    return k[0], k[1], ["-r", k[2]] if k[2] else []


def spelled(rng, m, k):
    s, n, r = k
    names = ["www." + s] + [a for a, t in m.alias.items() if t == s] + ["www." + a for a, t in m.alias.items() if t == s]
    if not s.startswith("www."):
        names.append(s)
    R = [["-r", r]] if r else [[], ["-r", "1"], ["--revision", ""], ["--revision=1"]]
    return rng.choice(names), n, rng.choice(R)


def target(rng, m):
    if rng.random() < .65 and m.pw:
        s, n, R = rng.choice([spelled, spelled, spelled, close])(rng, m, rng.choice(sorted(m.pw)))
    else:
        s = rng.choice(WORLD_SITES + ["al.com", "www.bl.com", "new.com", "a.co", "c.com", "www.www.c.com", "*.com", "aXcom", "a.com "])
        n = rng.choice(["me", "x", "ME", "m*", "", "me "])
        R = rng.choice([[], ["-r", "2"], ["-r", "02"], ["-r", "11"], ["-r", "1"], ["-r", "3"]])
    rev = "1"
    if R:
        rev = R[1] if len(R) > 1 else R[0].split("=")[1]
    return s, n, R, rev


def step(rng, m, code_for, eof=False):
    """-> words, dialogue after unlocking, consent given (or not needed), asked"""
    s, n, R, rev = target(rng, m)
    exists = m.has(s, n, rev)
    y = rng.random() < .25
    kind = rng.choice(["add", "stored", "code"])
    words = [{"add": "add"}.get(kind, "add-stored"), s, n] + R + ([rng.choice(["-y", "--assume-yes"])] if y else []) + \
            (["-c"] if kind == "code" else [])
    dlg, consent = [], True
    if exists and not y:
        a, consent = answers(rng, eof)
        dlg = [(P_OVERWRITE, x) for x in a]
    new = "new " + gen.token(rng)
    if consent:
        if kind == "stored":
            dlg.append((P_STORED, new))
        elif kind == "code":
            dlg += [(P_CODE, x) for x in code_for(new).split("\n")]
    return words, dlg, consent, exists and not y, (s, n, rev, kind, new)


def apply(m, t):
    s, n, rev, kind, new = t
    if kind == "add":
        m.add(s, n, rev)
    else:
        m.add_stored(s, n, new, rev)


def verdict(what, words, dlg, consent, asked, ok, out, err, unmet):
    if unmet is not None:
        raise Violation("%s: never shows %r: %r %r" % (what, unmet, out[-300:], err[-300:]))
    if not asked and P_OVERWRITE in out:
        raise Violation("%s: asks about overwriting, although there is nothing to overwrite: %r" % (what, out[-300:]))
    n = sum(p == P_OVERWRITE for p, _ in dlg)
    if out.count(P_OVERWRITE) != n:
        raise Violation("%s: asked %d times instead of %d: %r" % (what, out.count(P_OVERWRITE), n, out[-600:]))
    if consent:
        if not ok or not out.endswith(b"Password added.\n"):
            raise Violation("%s: not done: %r %r" % (what, out[-300:], err[-300:]))
    else:
        if b"Password added" in out:
            raise Violation("%s: done although declined: %r" % (what, out[-300:]))
        if P_STORED in out or P_CODE in out:
            raise Violation("%s: asks for a secret although declined: %r" % (what, out[-300:]))


def compare(what, path, m, primary, before, consent):
    if not consent:
        if open(path, "rb").read() != before:
            raise Violation("%s: the storage changes without consent" % what)
        return
    try:
        d = m.diff(ref.read_storage(open(path, "rb").read().decode(), primary))
    except (ref.FormatError, UnicodeDecodeError) as e:
        raise Violation("%s: unreadable storage afterwards: %s" % (what, e))
    if d:
        raise Violation("%s: %s" % (what, "; ".join(d[:4])))


def session(rng, obs, n):
    primary = "consenting"
    with Scratch() as d:
        m, es, recs = world(rng, primary)
        text, hs, key, salt = ref.build_storage(primary, recs, es)
        path = d + "/s"
        open(path, "w").write(text)
        with cli.Shell(path, primary, d + "/h", cwd=d) as sh:
            for i in range(n):
                words, dlg, consent, asked, t = step(rng, m, lambda p: ref.make_code(p, salt, key))
                before = open(path, "rb").read()
                what = "%r answered %r, %s" % (words, [x for _, x in dlg], "which exists" if asked else "")
                try:
                    out, err, unmet = sh.cmd(words, dlg)
                except Violation as v:
                    v.what = what + ": " + v.what
                    raise
                verdict(what, words, dlg, consent, asked, not err or t[3] == "code", out, err, unmet)
                if consent:
                    apply(m, t)
                compare(what, path, m, primary, before, consent)
                obs.case((words, [x for _, x in dlg]), asked, {"command": words, "answers": [x for p, x in dlg if p == P_OVERWRITE],
                                                               "replaced": consent} if asked else None)
                obs.count("asked, " + ("replaced" if consent else "kept") if asked else "not asked")
                if rng.random() < .15:
                    k = rng.choice(sorted(m.pw)) if m.pw else None
                    if k and not k[0].startswith("www."):
                        sh.cmd(["remove", k[0], k[1]] + (["-r", k[2]] if k[2] else []))
                        del m.pw[k]


def oneshot(rng, obs, n):
    """Own processes, also with ends of input and with unreadable targets."""
    primary = "consenting"
    with Scratch() as d:
        m, es, recs = world(rng, primary)
        text, hs, key, salt = ref.build_storage(primary, recs, es)
        path = d + "/s"
        for i in range(n):
            mm = m.copy()
            import json
            doc = json.loads(text)
            broken = None
            if rng.random() < .35 and mm.pw:
                broken = rng.choice(sorted(mm.pw))
                kk = ref.password_key(hs, *broken)
                v = doc["data"][kk]
                doc["data"][kk] = rng.choice([v[:-8], "x", "", ref.enc(bytes(32), b"{}"), ref.enc(key, b"{}"), v[::-1]])
            open(path, "w").write(json.dumps(doc))
            while True:
                words, dlg, consent, asked, t = step(rng, mm, lambda p: ref.make_code(p, salt, key), eof=True)
                if broken is None or mm.id(t[0], t[1], t[2]) == broken:
                    break
            before = open(path, "rb").read()
            snap = snapshot(d)
            r = cli.run(path, words, [(P_PRIMARY, primary)] + [x for x in dlg], cwd=d)
            what = "%r answered %r%s" % (words, [x for _, x in dlg], ", the entry being damaged" if broken else "")
            if r.panicked():
                raise Violation("%s: crash: %r" % (what, r))
            verdict(what, words, dlg, consent, asked, r.rc == 0, r.out, r.err, r.unmet)
            if not consent and changes(snap, snapshot(d)):
                raise Violation("%s: files change without consent: %r" % (what, changes(snap, snapshot(d))))
            if consent:
                apply(mm, t)
            compare(what, path, mm, primary, before, consent)
            obs.case((words, [x for _, x in dlg], broken), asked)
            obs.count(("asked, " + ("replaced" if consent else "kept") if asked else "not asked") + (", damaged entry" if broken else ""))


KINDS = ["storage", "empty", "garbage", "newer", "binary", "truncated", "foreign", "symlink", "nosalt", "huge", "readonly", "missing", "dangling", "dir"]


def reset(rng, obs, n, kinds=None):
    primary = "old primary"
    for _ in range(n):
        kind = rng.choice(kinds or KINDS)
        with Scratch() as d:
            text = ref.build_storage(primary, {"a.com": None}, [dict(type="stored", site="a.com", name="x", revision="", password="precious")])[0]
            path = d + "/s"
            if kind in ("storage", "readonly"):
                open(path, "w").write(text)
                if kind == "readonly":
                    os.chmod(path, 0o400)
            elif kind == "empty":
                open(path, "w")
            elif kind == "garbage":
                open(path, "w").write("not a storage")
            elif kind == "newer":
                open(path, "w").write(text.replace('"format": 3', '"format": 4'))
            elif kind == "binary":
                open(path, "wb").write(b"\xff\0" * 100)
            elif kind == "truncated":
                open(path, "w").write(text[:len(text) // 2])
            elif kind == "foreign":
                open(path, "w").write('{"my": "precious data"}')
            elif kind == "symlink":
                open(d + "/real", "w").write(text)
                os.symlink("real", path)
            elif kind == "nosalt":
                open(path, "w").write('{"application":"pfp","format":3,"data":{}}')
            elif kind == "huge":
                open(path, "w").write(text + " " * 3000000)
            elif kind == "dangling":
                os.symlink("nowhere", path)
            elif kind == "dir":
                os.mkdir(path)
                open(path + "/f", "w").write("x")
            there = kind not in ("missing", "dangling")
            y = rng.random() < .2
            dlg, consent = [], True
            if there and not y:
                a, consent = answers(rng, True)
                dlg = [(P_RESET, x) for x in a]
            new = "brand new " + gen.token(rng)
            works = consent
            if consent:
                k = rng.randrange(8)
                if k == 0:
                    dlg += [(P_NEW, "short")]
                    works = False
                elif k == 1:
                    dlg += [(P_NEW, new), (P_REPEAT, new + "x")]
                    works = False
                elif k == 2:
                    dlg += [(P_NEW, None)]
                    works = False
                elif k == 3:
                    dlg += [(P_NEW, new), (P_REPEAT, None)]
                    works = False
                else:
                    dlg += [(P_NEW, new), (P_REPEAT, new)]
            if kind == "dir":
                works = False
            snap = snapshot(d)
            words = ["set-primary"] + ([rng.choice(["-y", "--assume-yes"])] if y else [])
            r = cli.run(path, words, dlg, cwd=d)
            what = "set-primary%s on %s answered %r" % (" -y" if y else "", kind, [x for _, x in dlg])
            if r.panicked():
                raise Violation("%s: crash: %r" % (what, r))
            if r.unmet is not None:
                raise Violation("%s: never shows %r: %r" % (what, r.unmet, r))
            n_ask = sum(p == P_RESET for p, _ in dlg)
            if r.out.count(P_RESET) != n_ask:
                raise Violation("%s: asked %d times instead of %d" % (what, r.out.count(P_RESET), n_ask))
            if not consent and P_NEW in r.out:
                raise Violation("%s: goes on although declined: %r" % (what, r))
            ch = changes(snap, snapshot(d))
            if not works:
                if ch:
                    raise Violation("%s: files change: %r" % (what, ch))
                if b"New primary password set" in r.out:
                    raise Violation("%s: reports success: %r" % (what, r))
                if consent and r.rc == 0:
                    raise Violation("%s: fails with exit status 0: %r" % (what, r))
            else:
                if r.rc != 0 or b"New primary password set" not in r.out:
                    raise Violation("%s: not done: %r" % (what, r))
                p = ref.read_storage(open(path).read(), new)
                if p.passwords or p.sites:
                    raise Violation("%s: old data is still there" % what)
            obs.case((kind, [x for _, x in dlg]), n_ask > 0, {"file": kind, "answers": [x for p, x in dlg if p == P_RESET], "replaced": works})
            obs.count("set-primary on %s, %s" % (kind, "replaced" if works else "kept"))


def main():
    common.build_cli()
    r = Runner("C13", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(session, [(60,)] * (24 * m), "shells")
    r.run(oneshot, [(5,)] * (36 * m), "one command per process")
    r.run(reset, [(7,)] * (20 * m), "set-primary")
    return finish(r, "exploration", RULE,
                  ["notes -s and alias replace notes and aliases without asking by design"], 200)
