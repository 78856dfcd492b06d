"""Scripts for parties on the real network: legal interleavings of sends and receives."""
from vlib import *

SMALL = [0, 0, 1, 2, 3, 4, 5, 8, 24, 25, 100, 1000]
MEDIUM = SMALL + [4096, 65535, 65536, 70000]
LARGE = MEDIUM + [1 << 20, 3_000_000]


def weave(rng, ids, links, n, sizes, mode="mesh", posts=0.3, depth=8, waits=False, lag=0.0, byset=None):
    """Programs of the parties: n messages over the links <<set, from, to>>, at most depth of them under way
    on any link.  The order is one that a global observer could see, so the programs cannot deadlock."""
    progs = {i: [] for i in ids}
    fly = {l: 0 for l in links}
    queued = set(l for l in links if rng.random() < posts and (byset or {}).get(l[0]) != "direct")
    hot = rng.sample(links, max(1, len(links) // 2))
    sent, m = 0, rng.randrange(1 << 20)
    while sent < n or any(fly.values()):
        full = [l for l in links if fly[l]]
        if sent < n and (not full or rng.random() < rng.choice([0.3, 0.5, 0.8])):
            free = [l for l in (hot if rng.random() < 0.7 else links) if fly[l] < depth]
            if free:
                l = rng.choice(free)
                st = dict(a="send", s=l[0], p=l[2], l=rng.choice(sizes if (byset or {}).get(l[0]) != "direct" else SMALL + [65536]), m=m)
                m += 1
                if mode == "aby3":
                    v = rng.random()
                    st["a"] = "send" if v < 0.4 else "snext" if l[2] == (l[1] + 1) % 3 else "sprev"
                elif waits and rng.random() < 0.2:
                    st["w"] = True
                if mode == "mesh" and (byset or {}).get(l[0]) == "raw" and rng.random() < 0.15:
                    st["b"] = True
                progs[l[1]].append(st)
                fly[l] += 1
                sent += 1
                continue
        if full:
            l = rng.choice(full)
            a = "take" if l in queued and mode == "mesh" else "recv"
            if mode == "aby3" and rng.random() < 0.6:
                a = "rnext" if l[1] == (l[2] + 1) % 3 else "rprev"
            st = dict(a=a, s=l[0], p=l[1])
            if a == "recv" and mode == "mesh" and (byset or {}).get(l[0]) == "raw" and rng.random() < 0.15:
                st["b"] = True
            progs[l[2]].append(st)
            fly[l] -= 1
    for i in ids:
        prog = progs[i]
        # every "take" needs an earlier "post": at most eight of a link outstanding
        out, outstanding, left = [], {}, {}
        for st in prog:
            if st["a"] == "take":
                left[(st["s"], st["p"])] = left.get((st["s"], st["p"]), 0) + 1
        for st in prog:
            for k in list(left):
                while left[k] and outstanding.get(k, 0) < 8 and rng.random() < 0.3:
                    out.append(dict(a="post", s=k[0], p=k[1]))
                    outstanding[k] = outstanding.get(k, 0) + 1
                    left[k] -= 1
            k = (st.get("s"), st.get("p"))
            if st["a"] == "take" and not outstanding.get(k):
                out.append(dict(a="post", s=k[0], p=k[1]))
                outstanding[k] = 1
                left[k] -= 1
            if st["a"] == "take":
                outstanding[k] -= 1
            if lag and rng.random() < lag:
                out.append(dict(a="sleep", l=rng.choice([1, 5, 30])))
            out.append(st)
        progs[i] = out
    return [progs[i] for i in ids]


def links(ids, sets=1):
    return [(s, i, j) for s in range(sets) for i in ids for j in ids if i != j]


def mesh(name, ids, lists, delays, sets, progs, limit=40000, **kw):
    return dict(id=name, kind="mesh", ids=ids, lists=lists, delays=delays, sets=sets, progs=progs, hold=True, limit=limit, tag="ok", **kw)


def aby3(name, progs, lists=None, delays=(0, 0, 0), limit=40000, tag="ok", ids=(0, 1, 2), **kw):
    return dict(id=name, kind="aby3", ids=list(ids), lists=lists or [[0, 1, 2]] * 3, delays=list(delays), sets=[], progs=progs, hold=kw.pop("hold", False), limit=limit, tag=tag, **kw)


def rounds(rng, n, sizes):
    """Programs in which all three broadcast, with ordinary messages between."""
    progs = [[], [], []]
    for _ in range(n):
        for i in range(3):
            progs[i].append(dict(a="bcast", l=rng.choice(sizes), m=rng.randrange(1 << 20)))
        if rng.random() < 0.5:
            more = weave(rng, [0, 1, 2], links([0, 1, 2]), rng.randrange(1, 6), sizes, mode="aby3")
            for i in range(3):
                progs[i] += more[i]
        if rng.random() < 0.2:
            i = rng.randrange(3)
            progs[i].append(dict(a="bad", p=rng.choice([i, 3, 4, 17])))
    return progs


def probe(ids, sets, rng=None, k=2):
    """Each party tells each other one who it is, on every set of channels."""
    progs = []
    for i in ids:
        p = [dict(a="send", s=s, p=j, l=16, m=1000 * i + j + 7 * s + 100000 * r) for r in range(k) for s in range(sets) for j in ids if j != i]
        p += [dict(a="recv", s=s, p=j) for r in range(k) for s in range(sets) for j in ids if j != i]
        progs.append(p)
    return progs
