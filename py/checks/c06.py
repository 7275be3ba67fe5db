"""C06: generated passwords are the documented function of primary password, site, name, revision, length and classes."""
import common, gen, ref, cli
from common import Runner, Scratch, finish, Violation
from store import Store, fail

RULE = ("random tuples (primary password, site, name, revision, length, allowed classes), weighted to short lengths, many "
        "classes and hostile texts, added through random spellings of the command line and read back with show and list -s, in "
        "different storages, after removal and re-adding and after a reset; every value is compared with an independent "
        "implementation of the derivation (OpenSSL's scrypt), and checked for length, allowed characters and one character of "
        "every allowed class. Non-trivial: a value shown and compared.")



def properties(v, length, classes, st):
    alpha = {n: a for n, a in ref.CLASSES}
    if len(v) != length:
        fail("generated password %r has length %d instead of %d" % (v, len(v), length), st)
    for c in v:
        if not any(c in alpha[n] for n in classes):
            fail("generated password %r contains %r, allowed are %r" % (v, c, classes), st)
    for n in classes:
        if not any(c in alpha[n] for c in v):
            fail("generated password %r has no %s character" % (v, n), st)


ALL = [tuple(c for i, (c, _) in enumerate(ref.CLASSES) if b >> i & 1) for b in range(1, 16)]
PAIRS = [(ln, cl) for ln in range(4, 25) for cl in ALL]


def tuples(rng, n):
    # every class combination with every length comes up in turn
    out = {}
    deck = rng.sample(PAIRS, n)
    while len(out) < n:
        old = rng.choice(list(out.values())) if out and rng.random() < .5 else None
        if old:  # close to another one, with nothing else changed
            site, name, rev, ln, cl = old
            k = rng.randrange(3)
            site, name, rev = (gen.variant(rng, site), name, rev) if k == 0 else (site, gen.variant(rng, name), rev) if k == 1 else \
                (site, name, gen.variant(rng, rev))
        else:
            site = gen.text(rng) if rng.random() < .15 else rng.choice(gen.SITES + [gen.token(rng, 8) + ".com"] * 20)
            name = gen.text(rng) if rng.random() < .15 else rng.choice(gen.NAMES + [gen.token(rng, 5)] * 10)
            rev = gen.text(rng, 0, 4) if rng.random() < .2 else rng.choice(gen.REVS + [" ", "\t", "\u00a0", "0", "00", "-1"] + [str(rng.randint(1, 40)) for _ in range(8)])
        if site.startswith("www."):
            continue
        if not old:
            if rng.random() < .5:
                ln, cl = deck.pop() if deck else rng.choice(PAIRS)
            else:
                cl = gen.classes(rng) if rng.random() < .6 else ("lower", "upper", "number", "symbol")
                ln = rng.choice([4, 4, 4, 5, 6, 8, 16, 23, 24, rng.randint(4, 24)])
        out[(site, name, ref.norm_rev(rev))] = (site, name, rev, ln, cl)
    return list(out.values())


def value(st, rng, t, how):
    site, name, rev, ln, cl = t
    if how == "show":
        ok, out, err, _ = st.do(gen.words("show", gen.rev_flags(rng, rev), [rng.choice([site, "www." + site]), name]))
        if not ok:
            fail("show fails: %r" % err, st)
        v = out.decode().split("\n")[-2]
    else:
        ok, out, err, _ = st.do(["list", "-s", "--", site, name])
        if not ok:
            fail("list -s fails: %r" % err, st)
        r = ref.norm_rev(rev)
        head = "    %s (generated%s)" % (name, ", revision: " + r if r else "")
        lines = out.decode().split("\n")
        if head not in lines:
            fail("list -s does not show %r: %r" % (head, lines), st)
        v = lines[lines.index(head) + 1].strip(" ")
    return v


def derive(rng, obs, mode, n):
    with Scratch() as d:
        primary = rng.choice(gen.PRIMARIES + [gen.token(rng, rng.randint(6, 70)) for _ in range(10)] + [gen.trim(gen.text(rng, 6, 20)) + "x" * 6] * 6)
        with Store(d, primary, mode, obs=obs) as st:
            ts = tuples(rng, n)
            alias = None
            if rng.random() < .5:
                alias = "alias-of-" + gen.token(rng, 4)
                site = ts[0][0]
                st.set_alias(rng, alias, site)
            for t in ts:
                s = t[0]
                if alias and st.model.resolve(alias) == s and rng.random() < .5:
                    s = alias
                if rng.random() < .3 and t[3] != 24:  # overwritten with other parameters first
                    st.add(rng, s, t[1], t[2], 24, ("number",))
                st.add(rng, s, t[1], t[2], t[3], t[4])
            if rng.random() < .5:
                st.reopen()
            for t in ts:
                e = st.model.pw[st.model.id(*t[:3])]  # overwriting may have been declined
                t = t[:3] + (e["length"], e["classes"])
                how = "list" if rng.random() < .3 and "*" not in t[0] + t[1] and t[1] else "show"
                v = value(st, rng, t, how)
                want = ref.generate(primary, t[0], t[1], t[2], t[3], t[4])
                if v != want:
                    fail("%s gives %r for site %r name %r revision %r length %d classes %r; the derivation gives %r" % (
                        how, v, t[0], t[1], t[2], t[3], t[4], want), st)
                properties(v, t[3], t[4], st)
                obs.case((primary,) + t, True, {"primary": primary[:20], "tuple": repr(t)[:150], "value": v})
                obs.count("classes_%d" % len(t[4]))
                obs.count("length_%d" % t[3])
                obs.count("via_" + how)
        # another storage (other salt, other history): same values
        with Scratch() as d2:
            with Store(d2, primary, "shell", obs=obs) as st:
                for t in ts[:3]:
                    st.add_stored(rng, t[0], t[1], "something else", t[2])
                    st.set_notes(rng, t[0], t[1], t[2], "notes")
                    while st.model.pw[st.model.id(*t[:3])]["type"] == "stored":
                        st.add(rng, t[0], t[1], t[2], t[3], t[4])
                    st.set_notes(rng, t[0], t[1], t[2], "other notes")
                    v = value(st, rng, t, "show")
                    if v != ref.generate(primary, t[0], t[1], t[2], t[3], t[4]):
                        fail("another storage gives another password for %r: %r" % (t, v), st)
                    obs.count("recreated_elsewhere")


def foreign(rng, obs, n):
    """Entries written by another implementation of the format."""
    with Scratch() as d:
        primary = rng.choice(gen.PRIMARIES)
        st = Store(d, primary, "shell", create=False, obs=obs)
        ts = tuples(rng, n)
        es = [dict(type="generated2", site=t[0], name=t[1], revision=ref.norm_rev(t[2]), length=t[3],
                   **{c: c in t[4] for c, _ in ref.CLASSES}) for t in ts]
        open(st.path, "w").write(ref.build_storage(primary, {t[0]: None for t in ts}, es, style=rng)[0])
        st.history.append(("file", es))
        with st:
            for t in ts:
                v = value(st, rng, t, "show")
                want = ref.generate(primary, t[0], t[1], t[2], t[3], t[4])
                if v != want:
                    fail("show gives %r for %r, the derivation %r" % (v, t, want), st)
                properties(v, t[3], t[4], st)
                obs.case((primary,) + t, True)
                obs.count("from_foreign_files")


def main():
    common.build_cli()
    r = Runner("C06", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(derive, [("shell", 14)] * (20 * m) + [("oneshot", 3)] * (4 * m), "derivation")
    r.run(foreign, [(14,)] * (8 * m), "foreign files")
    return finish(r, "exploration", RULE,
                  ["the reference derivation was validated against the vectors in the repository's unit tests",
                   "names and sites contain no NUL; at least one class is allowed; lengths are 4 to 24"], 50)
