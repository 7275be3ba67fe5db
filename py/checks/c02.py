"""C02: site spellings and aliases address one set of passwords, and none is ever lost or hidden by them."""
import common, gen
from common import Runner, Scratch, finish
from store import Store, fail

RULE = ("histories mixing alias definition, redefinition, chaining, removal and queries with password operations through "
        "every spelling (www. prefix, alias names) over 4-6 related sites; after every step the decrypted file is compared "
        "with the model (flat aliases), at the end every password is shown through its site and every alias. "
        "Non-trivial: the history defines an alias and uses a password through one.")


def history(rng, obs, mode, ops):
    with Scratch() as d:
        base = rng.choice(gen.SITES[:20]) if rng.random() < .6 else gen.text(rng, 1, 5)
        pool = [base] + gen.subset(rng, gen.related(base), 2) + [gen.variant(rng, base)] + gen.pool(rng, gen.SITES, 2)
        pool = list(dict.fromkeys(pool))
        with Store(d, rng.choice(gen.PRIMARIES), mode, obs=obs) as st:
            via = defs = 0

            def spell(s):
                return rng.choice([s, s, "www." + s])
            for i in range(ops):
                s, t = spell(rng.choice(pool)), spell(rng.choice(pool))
                n = rng.choice(["me", "you", ""])
                isal = st.model.norm(s) in st.model.alias
                k = rng.random()
                if k < .30:
                    before = dict(st.model.alias)
                    st.set_alias(rng, s, t)
                    defs += before != st.model.alias
                    obs.count("alias_definitions_accepted" if before != st.model.alias else "alias_definitions_refused_or_same")
                elif k < .38:
                    st.remove_alias(rng, s)
                elif k < .46:
                    st.alias(rng, s)
                elif k < .52:
                    st.add(rng, s, n)
                    via += isal
                elif k < .66:
                    st.add_stored(rng, s, n, gen.secret(rng))
                    via += isal
                elif k < .76:
                    st.remove(rng, s, n)
                    via += isal
                elif k < .82:
                    st.set_notes(rng, s, n, "1", gen.notes(rng))
                    via += isal
                elif k < .86:
                    st.notes(rng, s, n)
                elif k < .92:
                    e = st.model.pw.get(st.model.id(s, n, "1"))
                    if not e or e["type"] == "stored":
                        st.show(rng, s, n)
                        via += isal
                elif k < .95:
                    st.list(rng, verbose=True)
                elif k < .98:
                    st.list(rng, rng.choice(["*", s if "*" not in s and "?" not in s else "*"]),
                            rng.choice(["zz*", "*", "m*", "nobody", "*u", "??"]), verbose=True)
                else:
                    st.reopen()
            st.reopen()
            st.list(rng, verbose=True)
            for (s, n, r), e in list(st.model.pw.items()):
                for sp in ["www." + s] + [a for a, t in st.model.alias.items() if t == s and not a.startswith("www.")]:
                    if e["type"] == "stored":
                        st.show(rng, sp, n, r)
                    else:
                        st.notes(rng, sp, n, r)
            for a in list(st.model.alias):
                st.alias(rng, "www." + a)
            if any(t in st.model.alias for t in st.model.alias.values()):
                fail("alias chain", st)
            obs.case(st.history, defs > 0 and via > 0,
                     {"mode": mode, "sites": pool, "aliases": dict(st.model.alias), "operations": len(st.history)})
            obs.count("operations_through_aliases", via)


def star(rng, obs, mode, n):
    """Many aliases of the same site, which then moves elsewhere itself, and so on."""
    with Scratch() as d:
        with Store(d, rng.choice(gen.PRIMARIES), mode, obs=obs) as st:
            hubs = ["hub%d.%s" % (i, rng.choice(["com", "local", "münchen.de"])) for i in range(rng.randint(2, 5))]
            rays = ["ray%d.%s" % (i, rng.choice(["com", "net"])) for i in range(n)]
            for i, x in enumerate(rays):
                st.set_alias(rng, x, rng.choice(hubs[:2]) if i > 2 else hubs[0])
                if rng.random() < .05:
                    st.reopen()
            for a, b in zip(hubs, hubs[1:]):
                st.set_alias(rng, a, b)
                if rng.random() < .5:
                    st.remove_alias(rng, rng.choice(rays))
                if rng.random() < .3:
                    st.list(rng, verbose=True)
            st.add_stored(rng, rng.choice(rays), "me", gen.secret(rng))
            for x in rng.sample(rays, min(5, n)):
                st.add_stored(rng, x, "me", gen.secret(rng))
                st.set_notes(rng, rng.choice(rays), "me", "1", gen.notes(rng))
            st.reopen()
            for x in rays + hubs:
                st.show(rng, x, "me")
                st.alias(rng, x)
            st.list(rng, verbose=True)
            most = max(list(st.model.alias.values()).count(t) for t in st.model.alias.values())
            obs.case((mode, n, st.history), most > 2, {"mode": mode, "aliases": len(st.model.alias), "of_one_site": most})
            obs.count("aliases_in_stars", len(st.model.alias))


def main():
    common.build_cli()
    r = Runner("C02", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(history, [("shell", 150)] * (40 * m) + [("oneshot", 25)] * (6 * m), "histories")
    r.run(star, [("shell", n) for n in (3, 5, 6, 9, 17, 33, 65, 130)] * (20 if common.THOROUGH else 1) + [("oneshot", 7)] * m, "many aliases of one site")
    return finish(r, "exploration", RULE,
                  ["alias chains present in files written by older versions are not covered (only files built through the "
                   "program)"], 5)
