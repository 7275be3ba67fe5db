"""C01: the store is a faithful map of passwords and notes."""
import common, gen, ref
from common import Runner, Scratch, finish
from store import Store

RULE = ("histories of add/add-stored/overwrite/remove/notes/show/list over a small pool of colliding and hostile keys, "
        "through a shell session with locks and restarts or one process per command; after every mutation the decrypted "
        "file is compared with the model. Non-trivial: a history with at least one overwrite or removal and a read-back.")


def history(rng, obs, mode, ops):
    with Scratch() as d:
        primary = rng.choice(gen.PRIMARIES)
        sites = gen.pool(rng, gen.SITES, 4)
        sites += rng.sample(gen.related(sites[0]), 1)
        names = gen.pool(rng, gen.NAMES, 4)
        revs = list(dict.fromkeys(["1", ""] + gen.pool(rng, gen.REVS, 3)))
        with Store(d, primary, mode, obs=obs) as st:
            over = shown = 0
            gens = 0
            for i in range(ops):
                s, n, r = rng.choice(sites), rng.choice(names), rng.choice(revs)
                if rng.random() < .5 and st.model.pw:
                    s, n, r = rng.choice(list(st.model.pw))
                    t = rng.random()
                    if t < .3:
                        s = "www." + s
                    elif t < .45:
                        s, n, r = gen.near(rng, (s, n, r))
                    elif t < .52 and mode == "shell":
                        probe(st, rng, obs)
                k = rng.random()
                exists = st.model.has(s, n, r)
                e = st.model.pw.get(st.model.id(s, n, r))
                again = e is not None and rng.random() < .3  # overwritten with what it is already
                if again and k < .42 and rng.random() < .7:
                    st.set_notes(rng, s, n, r, gen.token(rng))
                if k < .18:
                    same = again and e["type"] == "generated2"
                    st.add(rng, s, n, r, e["length"] if same else rng.choice([16, 4, 24, rng.randint(4, 24)]), e["classes"] if same else gen.classes(rng))
                    over += exists
                elif k < .42:
                    st.add_stored(rng, s, n, e["password"] if again and e["type"] == "stored" else gen.secret(rng), r)
                    over += exists
                elif k < .52:
                    st.remove(rng, s, n, r)
                    over += exists
                elif k < .68:
                    st.set_notes(rng, s, n, r, gen.notes(rng))
                elif k < .76:
                    st.notes(rng, s, n, r)
                elif k < .92:
                    if e and e["type"] == "generated2":
                        gens += 1
                        if gens > ops // 12 + 2:
                            continue
                    st.show(rng, s, n, r)
                    shown += exists
                elif k < .95:
                    st.list(rng, verbose=rng.random() < .5)
                elif k < .98:
                    st.relock()
                else:
                    st.reopen()
            # read everything back in a new process
            st.reopen()
            for (s, n, r), e in list(st.model.pw.items()):
                if e["type"] == "stored":
                    s2 = "www." + s  # one prefix is stripped again
                    st.show(rng, s2, n, r)
                    shown += 1
                st.notes(rng, "www." + s, n, r)
            obs.case(st.history, over > 0 and shown > 0,
                     {"mode": mode, "operations": len(st.history), "entries": len(st.model.pw),
                      "first": repr(st.history[1:5])[:400]})
            obs.count("overwrites_and_removals", over)


def probe(st, rng, obs):
    """Neighbours of what is there, which are not there: nothing finds them, and nothing happens to what is."""
    m = st.model
    key = rng.choice(list(m.pw))
    for _ in range(8):
        s, n, r = gen.near(rng, key)
        if m.has(s, n, r):
            continue
        [lambda: st.remove(rng, s, n, r), lambda: st.remove(rng, s, n, r), lambda: st.show(rng, s, n, r), lambda: st.notes(rng, s, n, r),
         lambda: st.set_notes(rng, s, n, r, "x")][rng.randrange(5)]()
        obs.count("near_misses")


LONG = [255, 256, 1023, 1025, 4095, 4097, 8191, 16385, 65535, 65537, 100000]


def large(rng, obs, entries, each):
    """Many entries, long texts: nothing is cut off, forgotten or confused once there is a lot of it."""
    with Scratch() as d:
        primary = rng.choice(gen.PRIMARIES)
        st = Store(d, primary, "shell", create=False, obs=obs)
        m = st.model
        sites = ["site%d.com" % i for i in range(rng.choice([1, 3, entries // 4, entries]))]
        recs, es = {s: None for s in sites}, []
        for i in range(entries):
            s, n = rng.choice(sites), "user%d" % i
            pw, nt = "secret %d " % i + "x" * rng.randint(1, each), rng.choice(["", "notes %d" % i, "n" * rng.randint(1, each)])
            es.append({"site": s, "name": n, "revision": "", "type": "stored", "password": pw, **({"notes": nt} if nt else {})})
            m.pw[(s, n, "")] = {"type": "stored", "password": pw, "notes": nt}
        text = ref.build_storage(primary, recs, es, style=rng)[0]
        open(st.path, "w").write(text)
        st.history.append(("file with %d entries of up to %d bytes" % (entries, each),))
        with st:
            for i in rng.sample(range(entries), 12) + [0, entries - 1]:
                e = es[i]
                st.show(rng, e["site"], e["name"])
                st.notes(rng, e["site"], e["name"])
            st.set_notes(rng, es[1]["site"], es[1]["name"], "1", "N" * rng.choice(LONG))
            st.remove(rng, es[2]["site"], es[2]["name"])
            st.add_stored(rng, es[3]["site"], "new", "P" * rng.choice(LONG))
            st.add_stored(rng, "s" * rng.choice(LONG) + ".com", "n" * rng.choice(LONG), "Q" * rng.choice(LONG), "r" * rng.choice([1, 300, 5000]))
            st.list(rng, verbose=True)
            st.reopen()
            for k in list(m.pw)[-2:] + rng.sample(list(m.pw), 6):
                st.show(rng, *k)
                st.notes(rng, *k)
            obs.case((entries, each, len(text)), True, {"entries": entries, "file_bytes": len(text)})
            obs.count("large_storage_bytes", len(text))


def main():
    common.build_cli()
    r = Runner("C01", 900 if common.THOROUGH else 100)
    m = 40 if common.THOROUGH else 1
    r.run(history, [("shell", 140)] * (40 * m) + [("oneshot", 25)] * (8 * m), "histories")
    r.run(large, [(300, 30), (150, 20000), (1500, 100)] * (4 if common.THOROUGH else 1), "large storages")
    return finish(r, "exploration", RULE,
                  ["names and sites contain no NUL; passwords are typed with surrounding whitespace trimmed"], 5)
