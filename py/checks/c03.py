"""C03: listings are complete, sound, ordered and filtered as asked."""
import common, gen, ref
from common import Runner, Scratch, finish, Violation
from model import Model
from store import Store

RULE = ("storages of up to 120 entries written by the independent implementation (or built by commands), listed with "
        "exact, wildcard and non-matching domain and name patterns and all option combinations; the complete output is "
        "compared with the expected text. Non-trivial: a listing with at least one entry that leaves out another one.")

WORDS = ["alpha", "beta", "example", "mail", "shop", "bank", "x", "zeta", "münchen", "login", "Example", "b2b"]
TLDS = ["com", "org", "net", "co.uk", "de", "info", "local"]


def pools(rng):
    sites = set()
    while len(sites) < rng.choice([1, 3, 8, 20]):
        k = rng.random()
        s = rng.choice(WORDS) + "." + rng.choice(TLDS)
        if k < .2:
            s = rng.choice(WORDS) + "." + s
        elif k < .3:
            s = rng.choice(gen.SITES)
        elif k < .36:
            s = "www." + s
        elif k < .42:
            s = gen.text(rng, 0, 5)
        elif k < .7 and sites:
            t = rng.choice(sorted(sites))
            s = rng.choice([t.upper(), t.lower(), t.swapcase(), "shop." + t, t + ".", t + ":8080", gen.variant(rng, t), gen.variant(rng, t)])
        if "*" not in s and "?" not in s:
            sites.add(s)
    return sorted(sites)


def prefix_free(names):
    """Sorting by name and revision is only specified up to names that continue another one with a blank."""
    return [n for n in names if not any(m != n and m.startswith(n) and m[len(n)] <= " " for m in names)]


def pattern(rng, texts):
    t = rng.choice(texts) if texts else "x"
    k = rng.randrange(12)
    i, j = sorted((rng.randint(0, len(t)), rng.randint(0, len(t))))
    if k >= 9:
        # any mixture
        p, i = "", 0
        while i < len(t):
            n = rng.randint(1, 4)
            p += rng.choice([t[i:i + n], t[i:i + n], "*", "?" * len(t[i:i + n]), "*" + t[i:i + n], t[i:i + n] + "*", "?", "*?", "?*", "*" + t[i:i + n] + "?"])
            i += n
        p += rng.choice(["", "", "*", "?", "*?"])
        k = -1
    else:
        p = None
    p = p if k < 0 else ["*", t, t[:i] + "*", "*" + t[i:], "*" + t[i:j] + "*", t[:i] + "?" + t[i + 1:], t[:i] + "*" + t[j:],
         "nothing-like-it*", t[:i] + "??" + t[j:]][k]
    p = p.replace("**", "*")
    if any(ref.wild(p, x) != ref.wild_crate(p, x) for x in texts):
        return "*"
    return p


def listing(rng, obs, queries):
    with Scratch() as d:
        primary = rng.choice(gen.PRIMARIES)
        st = Store(d, primary, "shell", create=False, obs=obs)
        m = st.model
        sites = pools(rng)
        names = prefix_free(gen.subset(rng, gen.NAMES + gen.pool(rng, ["bob", "alice", "zoe", "root", "Bob"], 12), 9))
        aliases = {}
        spare = [s for s in sites if rng.random() < .3]
        full = [s for s in sites if s not in spare]
        if full:
            for s in spare:
                if rng.random() < .7:
                    aliases[s] = rng.choice(full)
            for s in full:
                # spellings close to the target's
                while rng.random() < .3:
                    a = rng.choice([rng.choice(["shop.", "m.", "", "my-"]) + s + rng.choice(["", "", ".uk", "x"]), gen.variant(rng, s), gen.text(rng, 0, 6)])
                    if a not in sites and not a.startswith("www.") and "*" not in a and "?" not in a:
                        aliases[a] = s
        entries = []
        for s in full:
            if rng.random() < .12:
                continue  # a site without passwords
            for n in gen.subset(rng, names, rng.choice([1, 2, 4, 8])):
                for rev in dict.fromkeys(ref.norm_rev(x) for x in gen.subset(rng, ["1", "2", "3", "10", "old", "02", " ", "3 ", "Old", "1.0"], rng.choice([1, 1, 3]))):
                    if len(entries) >= 120:
                        break
                    e = {"site": s, "name": n, "revision": rev}
                    nt = gen.notes(rng) if rng.random() < .3 else ""
                    if nt:
                        e["notes"] = nt
                    if rng.random() < .5:
                        pw = gen.secret(rng)
                        e.update(type="stored", password=pw)
                        m.pw[(s, n, rev)] = {"type": "stored", "password": pw, "notes": nt}
                    else:
                        cl, ln = gen.classes(rng), rng.randint(4, 24)
                        e.update(type="generated2", length=ln, **{c: c in cl for c, _ in ref.CLASSES})
                        m.pw[(s, n, rev)] = {"type": "generated2", "length": ln, "classes": cl, "notes": nt}
                    entries.append(e)
        m.alias.update(aliases)
        recs = {s: None for s in full}
        recs.update(aliases)
        text = ref.build_storage(primary, recs, entries, style=rng)[0]
        open(st.path, "w").write(text)
        st.history.append(("file", recs, [(e["site"], e["name"], e["revision"]) for e in entries]))
        with st:
            gens = 0
            for q in range(queries):
                dp = pattern(rng, sorted(set(sites) | set(m.alias))) if rng.random() < .8 else "*"
                np = pattern(rng, names) if rng.random() < .5 else "*"
                sel = [k for k in m.pw if ref.wild(np, k[1])]
                show = rng.random() < .25
                if show:
                    # generated values cost a key derivation each
                    lines = m.listing(dp, np)
                    g = sum(1 for x in lines if "(generated" in x)
                    if gens + g > 12:
                        show = False
                    else:
                        gens += g
                st.list(rng, dp, np, show=show, verbose=rng.random() < .5, codes=rng.random() < .3)
                exp = m.listing(dp, np)
                n = sum(1 for x in exp if x.startswith("    "))
                obs.case((sorted(m.pw), dp, np, show), 0 < n < len(m.pw),
                         {"list": [dp, np], "lines": len(exp), "entries": len(m.pw)})
                if rng.random() < .15 and full:
                    s = rng.choice(sites)
                    k = rng.random()
                    if k < .4 and m.pw:
                        st.remove(rng, *[x if i else "www." + x for i, x in enumerate(rng.choice(list(m.pw)))])
                    elif k < .7:
                        st.add_stored(rng, s, rng.choice(names), gen.secret(rng), rng.choice(["1", "2"]))
                    else:
                        st.set_alias(rng, s, rng.choice(sites))
                if rng.random() < .03:
                    st.reopen()


def crowded(rng, obs, entries, queries):
    """Many sites, many names on one site."""
    with Scratch() as d:
        st = Store(d, "foobar", "shell", create=False, obs=obs)
        m = st.model
        few = rng.random() < .5
        sites = ["big.com", "other.org"] if few else ["s%d.com" % i for i in range(entries // 2)]
        es = []
        recs = {s: None for s in sites}
        for i in range(entries):
            s, n, rev = rng.choice(sites), "user%d" % rng.randrange(entries), rng.choice(["", "", "2", "10"])
            if (s, n, rev) in m.pw:
                continue
            m.pw[s, n, rev] = {"type": "stored", "password": "pw%d" % i, "notes": ""}
            es.append({"site": s, "name": n, "revision": rev, "type": "stored", "password": "pw%d" % i})
        for i in range(rng.choice([0, 5, 150])):
            m.alias["alias%d.com" % i] = recs["alias%d.com" % i] = rng.choice(sorted({k[0] for k in m.pw}))
        open(st.path, "w").write(ref.build_storage("foobar", recs, es)[0])
        st.history.append(("file with %d entries" % len(es),))
        with st:
            for q in range(queries):
                dp = rng.choice(["*", sites[0], "s1*", "*.com", "alias1*", "alias3.com"])
                np = rng.choice(["*", "user1*", "*9", "user??"])
                st.list(rng, dp, np, show=rng.random() < .5, verbose=True, codes=rng.random() < .1)
                n = sum(1 for x in m.listing(dp, np) if x.startswith("    "))
                obs.case((dp, np, len(es), few), 0 < n < len(es), {"list": [dp, np], "entries": len(es)})
                obs.count("entries_in_crowded_listings", n)


def probe(rng, obs):
    """The listed finding: patterns whose wildcard part has to be re-tried at an overlapping place."""
    with Scratch() as d:
        with Store(d, "foobar", "shell", obs=obs) as st:
            st.add_stored(rng, "aaab.com", "me", "secret")
            obs.case("probe", False)
            try:
                st.list(rng, "*aab.com")
            except Violation as v:
                v.replay["signature"] = "list-wildcard-overlap:*aab.com/aaab.com"
                raise


def main():
    common.build_cli()
    r = Runner("C03", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(listing, [(60,)] * (48 * m), "listings")
    r.run(crowded, [(n, 6) for n in (130, 300, 700)] * (2 * m), "crowded storages")
    r.run(probe, [()], "known finding")
    return finish(r, "exploration", RULE,
                  ["patterns on which the wildmatch crate differs from wildcard matching are left to the listed finding",
                   "order among names of which one continues the other with a blank is not specified",
                   "names contain no line breaks"], 20)
