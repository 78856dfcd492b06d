"""Concrete iris codes for the abstract queries of spec/IrisPlan.tla."""
from gen import *

N = 12800
MIN = 8960
FULL = (1 << N) - 1


def thr(n):
    return n * 34 // 100


def hexcode(x):
    return x.to_bytes(N // 8, "little").hex()


def bits_of_set(ps):
    b = bytearray(N // 8)
    for p in ps:
        b[p >> 3] |= 1 << (p & 7)
    return int.from_bytes(b, "little")


def positions(x):
    b = x.to_bytes(N // 8, "little")
    return [i for i in range(N) if (b[i >> 3] >> (i & 7)) & 1]


def pick(rng, ps, n):
    """n of the positions: at random, the first, the last, or from both ends"""
    how = rng.choice("rrfle")
    if how == "r":
        return rng.sample(ps, n)
    if how == "f":
        return ps[:n]
    if how == "l":
        return ps[len(ps) - n:]
    return ps[:n // 2] + ps[len(ps) - (n - n // 2):]


class Pool:
    """A query code and database entries of every kind for it."""

    def __init__(self, rng, full_mask):
        self.rng = rng
        self.x = rng.getrandbits(N)
        if full_mask:
            self.m = FULL
        else:
            self.m = bits_of_set(rng.sample(range(N), rng.choice([9100, 10000, 11500, 12799])))
        self.mp = positions(self.m)
        self.entries = []  # (kind, detail, code, mask)

    def add(self, kind, detail=None):
        rng = self.rng
        if kind == "short":
            detail = detail or rng.choice(["min-1", "min-1", "none", "some"])
            n = {"min-1": MIN - 1, "none": 0, "some": rng.randrange(0, MIN)}[detail]
        else:
            n = rng.choice([MIN, 9050, len(self.mp), rng.randrange(MIN, len(self.mp) + 1), MIN + 1])
            if detail is None:
                detail = rng.choice(["same", "edge", "edge", "edge"] if kind == "near" else ["edge", "edge", "opposite", "random"])
        s = pick(rng, self.mp, n)
        sset = bits_of_set(s)
        outside = FULL & ~self.m
        mask = sset | (outside & rng.getrandbits(N) if rng.random() < 0.7 else outside)
        if kind == "near":
            t = 0 if detail == "same" else thr(n) - 1
        elif kind == "far":
            t = {"edge": thr(n), "opposite": n, "random": rng.randrange(thr(n), n + 1)}[detail]
        else:
            t = rng.choice([0, n])
        flip = bits_of_set(pick(rng, s, t))
        rest = FULL & ~sset
        noise = rng.choice([0, rest, rest & rng.getrandbits(N)])
        self.entries.append((kind, detail, self.x ^ flip ^ noise, mask))
        return len(self.entries) - 1


def plans(d, cfg="IrisPlanGen.cfg"):
    r = tlc("IrisPlan", cfg, d, bigring=False)
    if not r.ok:
        print(r.out[-3000:])
        raise ToolError("IrisPlan")
    out = [json.loads(v) for v in sorted({v for _, v in tla_strings(r.out, "PLAN")})]
    out.sort(key=lambda p: (len(p["db"]), p["db"], p["chunk"]))
    return r, out


def session(sid, proto, ring, queries, key, full_mask=False, per_kind=3, see=("val", "wf"), swift_full=False, **kw):
    """queries: list of (list of kinds, chunk size). One session that asks them all; a query that
    will be refused has to come last."""
    rng = rng_for(key)
    pool = Pool(rng, full_mask)
    by = {}
    k = BITS[ring]
    for kinds, _ in queries:
        for kd in kinds:
            if len(by.setdefault(kd, [])) < min(per_kind, sum(q[0].count(kd) for q in queries)):
                by[kd].append(pool.add(kd))
    ops = [dict(op="preprocess")]
    if proto == "spdzwise":
        ops.append(dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64)))
    ops.append(dict(op="dealbits", v=hexcode(pool.x), d=1, q=True))
    for i, e in enumerate(pool.entries):
        ops.append(dict(op="dealbits", v=hexcode(e[2]), d=i + 2, q=True))
    detail = []
    for kinds, chunk in queries:
        es = [rng.choice(by[kd]) for kd in kinds]
        q = dict(x=1, v=hexcode(pool.m), ys=[e + 2 for e in es], ms=[hexcode(pool.entries[e][3]) for e in es])
        detail.append(["%s/%s" % pool.entries[e][:2] for e in es][:6] + [chunk])
        ops.append(dict(q, op="plain"))
        if proto == "swift3" and not swift_full:
            ops += pieces(q, pool, [pool.entries[e] for e in es], k, chunk, 100 + 20 * len(detail))
        else:
            ops.append(dict(q, op="iris", c=chunk))
    s = scenario(sid, proto, ring, ops, see=see, iris=True, **kw)
    s["tag"]["detail"] = detail
    return s


def pieces(q, pool, es, k, chunk, base):
    """The same query by its steps (Swift3's own verification of a full query takes an hour)."""
    n = len(es)
    comm = [e[3] & pool.m for e in es]
    cm = [hexcode(c) for c in comm]
    two = hx(2, k) * n
    th = "".join(hx(thr(bin(c).count("1")), k) for c in comm)
    r = base
    ops = [dict(op="mdot", x=1, ys=[1] * n, ms=cm, d=r)]
    for i, y in enumerate(q["ys"]):
        ops.append(dict(op="mdot", x=y, ys=[y], ms=[cm[i]], d=r + 8 + i))
    ops += [dict(op="cat", xs=[r + 8 + i for i in range(n)], d=r + 1),
            dict(op="mdot", x=1, ys=q["ys"], ms=cm, d=r + 2),
            dict(op="mul_const", x=r + 2, v=two, d=r + 3),
            dict(op="add", x=r, y=r + 1, d=r + 4),
            dict(op="sub", x=r + 4, y=r + 3, d=r + 5),
            dict(op="sub_const", x=r + 5, v=th, d=r + 6),
            dict(op="msb_many", x=r + 6, d=r),
            dict(op="reduce_or", x=r, c=chunk, d=r + 1),
            dict(op="open_bit", x=r + 1)]
    return ops
