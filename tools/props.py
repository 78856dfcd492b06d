"""One function per property."""
from gen import *
import iris as ir
import tamper as tp

ALL = [p + s for p in PROTOS for s in ("", "_i")]
UNSIGNED = ["aby3", "malaby3", "spdzwise", "swift3"]


def size(quick, thorough):
    return thorough if THOROUGH else quick


def systematic(prop, ops_of, label, protos=PROTOS, rings=RINGS, need_mul=False, see=("wf", "val", "mac"), **kw):
    """One session per protocol and ring from a function (proto, ring, k, rng) -> operations."""
    out = []
    for proto in protos:
        for ring in rings:
            if need_mul and not can_mul(proto, ring):
                continue
            k = BITS[ring]
            rng = rng_for(prop, label, proto, ring)
            ops = ops_of(proto, ring, k, rng)
            if ops is None:
                continue
            pre = [dict(op="preprocess")]
            if proto == "spdzwise" and any(o["op"] in ("deal", "dealbits") for o in ops):
                pre.append(dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64)))
            n = sum(o.pop("_and", 0) for o in ops)
            if proto == "spdzwise" and n:
                pre.append(dict(op="precompute", n=n + 512))
            out.append(scenario("%s-%s-%s-%s" % (prop, label, proto, ring), proto, ring, pre + ops, see=see, **dict(kw)))
    return out


def some(k, rng, n, edge=True):
    """n values, boundary values first"""
    vs = [0, 1, 2, (1 << k) - 1, (1 << k) - 2, 1 << (k - 1), (1 << (k - 1)) - 1, (1 << (k - 1)) + 1,
          int("aa" * 16, 16), int("55" * 16, 16), (1 << (k // 2)) - 1, 1 << (k // 2)] if edge else []
    vs = vs[:n]
    return [hx(v, k) for v in vs] + [hx(rng.getrandbits(k), k) for _ in range(n - len(vs))]


# ---------------------------------------------------------------------------------------------
def c01():
    c = Check("C01")
    vh = harness(ALL)
    s = families("C01", "share", size(10, 60), 12, c.d)

    def everything(proto, ring, k, rng):
        vs = [hx(v, k) for v in range(256)] if k == 8 else some(k, rng, size(40, 400))
        ops = []
        for p in range(3):
            part = vs[p::3] if k != 8 else vs
            ops.append(dict(op="input", p=p, v="".join(part), d=p + 1))
            ops.append(dict(op="open" if p == 0 else "open_many", x=p + 1))
        ops.append(dict(op="deal", v="".join(vs), d=9))
        ops.append(dict(op="open_many", x=9))
        ops.append(dict(op="open", x=9))
        return ops
    s += systematic("C01", everything, "values")

    def batches(proto, ring, k, rng):
        ops = []
        for i, n in enumerate([1, 2, 3, 7, 8, 9, 16, 17, 63, 64, 65, 127, 128, 129, 255, 257] + size([], [1000, 4099])):
            ops.append(dict(op="deal", v="".join(some(k, rng, n)), d=i))
            ops.append(dict(op="open_many", x=i))
            if can_mul(proto, ring):
                ops.append(dict(op="msb_many", x=i, d=i, _and=256 * k * ((n + 127) // 128)))
                ops.append(dict(op="open_bit_many", x=i))
                if n < 20:
                    ops.append(dict(op="open_bit", x=i))
        return ops
    s += systematic("C01", batches, "batches", rings=size(["u8", "u16", "u64", "i8", "i32"], RINGS))
    # the same under other schedules
    s += [dict(x, id=x["id"] + "-" + pol, policy=pol, cap=cap) for x in s[:: size(13, 5)]
          for pol, cap in (("random", 8), ("lazy", 0), ("slow1", 8))]
    c.sessions(vh, s, "sharing and opening")
    return c.end()


def c02():
    c = Check("C02")
    vh = harness(ALL)
    s = families("C02", "arith", size(12, 80), 14, c.d)
    s += families("C02", "linear", size(4, 30), 12, c.d)
    # every pair of values
    if THOROUGH:
        edge = list(range(256))
    else:
        edge = sorted(set([0, 1, 2, 3, 127, 128, 129, 254, 255] + random.Random(SEED).sample(range(256), 15)))

    def pairs(proto, ring, k, rng):
        if k == 8:
            ps = [(a, b) for a in edge for b in edge]
        else:
            vs = [int(v, 16) for v in some(k, rng, 14)]
            ps = [(a, b) for a in vs for b in vs]
        x, y = "".join(hx(a, k) for a, _ in ps), "".join(hx(b, k) for _, b in ps)
        ops = [dict(op="deal", v=x, d=1), dict(op="deal", v=y, d=2),
               dict(op="add", x=1, y=2, d=3), dict(op="sub", x=1, y=2, d=4),
               dict(op="add_const", x=1, v=y, d=5), dict(op="sub_const", x=1, v=y, d=6), dict(op="mul_const", x=1, v=y, d=7)]
        if can_mul(proto, ring):
            ops += [dict(op="mul", x=1, y=2, d=8), dict(op="open_many", x=8)]
        return ops + [dict(op="open_many", x=r) for r in (1, 2, 3, 4, 5, 6, 7)]
    s += systematic("C02", pairs, "pairs")
    c.sessions(vh, s, "arithmetic")
    return c.end()


def c03():
    c = Check("C03")
    vh = harness(ALL)
    s = families("C03", "dot", size(12, 80), 14, c.d)

    def lengths(proto, ring, k, rng):
        ops, r = [], 0
        for n in [1, 2, 3, 31, 64, 100, 257] + size([], [1024, 5000]):
            for x in ("max", "mix"):
                r += 2
                a, b = ("".join(some(k, rng, n, x == "mix")) if x == "mix" else hx(-1, k) * n for _ in range(2))
                ops += [dict(op="deal", v=a, d=r), dict(op="deal", v=b, d=r + 1), dict(op="dot", x=r, y=r + 1, d=1000 + r)]
        ops.append(dict(op="dot_many", xs=list(range(2, r + 2, 2)), ys=list(range(3, r + 2, 2)), d=999))
        ops.append(dict(op="dot_many", xs=list(range(r, 1, -2)) * 4, ys=list(range(r + 1, 2, -2)) * 4, d=998))
        return ops + [dict(op="open_many", x=999), dict(op="open_many", x=998)]
    s += systematic("C03", lengths, "lengths", need_mul=True)

    def masked(proto, ring, k, rng):
        codes = [rng.getrandbits(ir.N), ir.FULL, rng.getrandbits(ir.N), 1 | 1 << (ir.N - 1)]
        masks = [ir.FULL, 0, rng.getrandbits(ir.N), 1, 1 << (ir.N - 1), ir.bits_of_set(rng.sample(range(ir.N), 300)),
                 ir.FULL ^ rng.getrandbits(ir.N)]
        ops = [dict(op="dealbits", v=ir.hexcode(x), d=i + 1, q=True) for i, x in enumerate(codes)]
        ops.append(dict(op="mdot", x=1, ys=[2], ms=[ir.hexcode(ir.FULL)], d=10))
        ops.append(dict(op="mdot", x=2, ys=[1, 2, 3, 4, 1, 2, 3], ms=[ir.hexcode(m) for m in masks], d=11))
        ops.append(dict(op="mdot", x=3, ys=[3, 1, 3], ms=[ir.hexcode(masks[2]), ir.hexcode(masks[6]), ir.hexcode(masks[0])], d=12))
        return ops + [dict(op="open_many", x=11), dict(op="open", x=10), dict(op="open_many", x=12)]
    s += systematic("C03", masked, "masked", need_mul=True, rings=size(["u16", "u32", "u64", "i16", "u8"], RINGS))
    c.sessions(vh, s, "dot products")
    return c.end()


def c04():
    c = Check("C04")
    vh = harness(ALL)
    s = families("C04", "bool", size(12, 60), 16, c.d)

    def msbs(proto, ring, k, rng):
        ops = []
        vs = [hx(v, k) for v in range(256)] if k == 8 else some(k, rng, 200)
        ops.append(dict(op="deal", v="".join(vs), d=1))
        ops.append(dict(op="msb_many", x=1, d=1, _and=1024 * k))
        one = vs[:24] + vs[120:136]
        ops += [dict(op="deal", v="".join(one), d=2), dict(op="msb", x=2, d=2, _and=256 * k * len(one))]
        for i, n in enumerate([1, 2, 31, 64, 127, 128, 129, 130, 256, 257]):
            v = [rng.choice(vs) for _ in range(n)]
            ops += [dict(op="deal", v="".join(v), d=10 + i), dict(op="msb_many", x=10 + i, d=10 + i, _and=256 * k * ((n + 127) // 128))]
            if n in (1, 129):
                ops.append(dict(op="open_bit_many", x=10 + i))
        return ops
    s += systematic("C04", msbs, "msb", need_mul=True, rings=size(["u8", "u16", "u64", "i8", "i32", "u128"], RINGS))

    def reduce(proto, ring, k, rng):
        """one-hot, none and random bit lists of many lengths, with several chunk sizes"""
        ops = [dict(op="deal", v=hx(0, k) + hx(-1, k), d=1), dict(op="msb_many", x=1, d=1, _and=512 * k),
               dict(op="bslice", x=1, c=0, n=1, d=2), dict(op="bslice", x=1, c=1, n=1, d=3)]
        r = 10
        lens = [1, 2, 3, 4, 5, 7, 8, 9, 127, 128, 129, 200, 256, 257, 385, 511, 513, 641] + size([], [900, 1025, 1153, 2049])
        for n in lens:
            hot = sorted(set([0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)]))
            for h in [None] + (hot if n > 9 else list(range(n))):
                xs = [2] * n
                if h is not None:
                    xs[h] = 3
                ops.append(dict(op="bcat", xs=xs, d=r, q=True))
                ops.append(dict(op="reduce_or", x=r, c=rng.choice([1, 2, 3, n, n + 5, 128]), d=r + 1, _and=2 * n + 1024))
                r += 2
        ops.append(dict(op="bcat", xs=list(range(11, r, 2)), d=r))
        return ops + [dict(op="open_bit_many", x=r)]
    s += systematic("C04", reduce, "reduce", need_mul=True, rings=size(["u16", "i8"], ["u8", "u16", "u64", "i8", "i16"]))

    def ors(proto, ring, k, rng):
        ops = [dict(op="deal", v=hx(0, k) + hx(0, k) + hx(-1, k) + hx(-1, k), d=1), dict(op="deal", v=(hx(0, k) + hx(-1, k)) * 2, d=2),
               dict(op="msb_many", x=1, d=1, _and=512 * k), dict(op="msb_many", x=2, d=2, _and=512 * k)]
        for i in range(3, 9):
            ops.append(dict(op="or", x=i - 1, y=rng.choice([1, 2]), d=i, _and=1024))
        ops += [dict(op="or", x=1, y=2, d=20, _and=1024), dict(op="or", x=2, y=1, d=21, _and=1024), dict(op="or", x=1, y=1, d=22, _and=1024)]
        return ops + [dict(op="open_bit_many", x=20), dict(op="open_bit", x=21), dict(op="open_bit", x=22)]
    s += systematic("C04", ors, "or", need_mul=True)
    c.sessions(vh, s, "bits")
    return c.end()


IRIS_RINGS = {"aby3": ["u16", "u32", "u64", "u128", "i16", "i32"], "malaby3": ["u16", "u64", "i16"],
              "spdzwise": ["u16", "u32", "i16"], "swift3": ["u16", "u32", "i16"]}


def c05():
    c = Check("C05")
    vh = harness(ALL)
    c.add_model(model("IrisPlan", "IrisPlan.cfg", c.d, bigring=False), "IrisPlan: all databases up to 6, chunk sizes up to 7")
    _, ps = ir.plans(c.d)
    ok = [p for p in ps if p["res"] != "refused"]
    s = []
    for proto in PROTOS:
        for ring in IRIS_RINGS[proto]:
            n = size({"u16": 5}.get(ring, 2), {"u16": 25}.get(ring, 6))
            for i in range(n):
                rng = rng_for("C05", proto, ring, i)
                qs = [(p["db"], p["chunk"]) for p in rng.sample(ok, size(4, 6))]
                s.append(ir.session("C05-%s-%s-%d" % (proto, ring, i), proto, ring, qs, ("C05", proto, ring, i), full_mask=i % 3 == 0))
    # databases that span several machine words
    for proto in ["aby3", "malaby3", "spdzwise"]:
        for i, (n, ch) in enumerate([(129, 128), (130, 7), (257, 300)][: size(2 if proto == "aby3" else 1, 3)]):
            rng = rng_for("C05big", proto, i)
            qs = []
            for pos in [0, n - 1, rng.randrange(n), None][size(1 if proto == "spdzwise" else 0, 0):]:
                kinds = ["far"] * n
                if pos is not None:
                    kinds[pos] = "near"
                qs.append((kinds, ch))
            s.append(ir.session("C05-big-%s-%d" % (proto, n), proto, "u16", qs, ("C05big", proto, i), see=("val",)))
    c.sessions(vh, s, "queries")
    return c.end()


def c06():
    c = Check("C06")
    vh = harness(ALL)
    c.add_model(model("IrisPlan", "IrisPlan.cfg", c.d, bigring=False), "IrisPlan: all databases up to 6, chunk sizes up to 7")
    _, ps = ir.plans(c.d)
    ok = [p for p in ps if p["res"] != "refused"]
    bad = [p for p in ps if p["res"] == "refused"]
    s = []
    for proto in ["aby3", "malaby3", "spdzwise", "swift3"]:
        for ring in IRIS_RINGS[proto][:: size(1, 1)]:
            for i in range(size({"aby3": 12, "malaby3": 8}.get(proto, 3), {"aby3": 60, "malaby3": 40}.get(proto, 12))):
                rng = rng_for("C06", proto, ring, i)
                qs = [(p["db"], p["chunk"]) for p in rng.sample(ok, rng.choice([0, 1, 1]))] if proto != "swift3" else []
                # only short, so that nothing else decides; or any refused database
                p = rng.choice(bad)
                if i % 4 == 0:
                    p = dict(db=["short"], chunk=1)
                s.append(ir.session("C06-%s-%s-%d" % (proto, ring, i), proto, ring, qs + [(p["db"], p["chunk"])],
                                    ("C06", proto, ring, i), full_mask=i % 3 == 0, swift_full=True))
    c.sessions(vh, s, "queries with too little mask")
    return c.end()


# ---------------------------------------------------------------------------------------------
def tamper_check(prop, proto, rings, extra_verify, budget, irisb, models):
    c = Check(prop)
    vh = harness([proto] + ([proto + "_i"] if any(r[0] == "i" for r in rings) else []))
    for m in models:
        c.add_model(model(m[0], m[1], c.d, bigring=False, **(m[3] if len(m) > 3 else {})), m[2])
    rng = rng_for(prop)
    base = tp.bases(prop, proto, rings, extra_verify)
    progs = programs("mixed", size(6, 30), size(8, 12), c.d)
    for i, pr in enumerate(progs):
        ring = rings[i % len(rings)]
        if usable(pr, proto, ring):
            ops = concretise([o for o in pr if o["op"] != "verify"], proto, ring, (prop, i), finale=False)
            opens, ab = [], ({}, {})
            for o in ops:
                if "d" in o:
                    (ab[1] if o["op"] in ("msb", "msb_many", "or", "xor", "reduce_or", "bcat", "bslice") else ab[0])[o["d"]] = 1
            ops = [o for o in ops if not o["op"].startswith("open")]
            if proto == "spdzwise" and not any(o["op"] in ("newkey", "dealkey") for o in ops):
                ops.insert(1, dict(op="newkey"))
            ops += [dict(op="verify")] * extra_verify
            ops += [dict(op="open_many", x=r) for r in ab[0]] + [dict(op="open_bit_many", x=r) for r in ab[1]]
            base.append(scenario("%s-%s-%s-prog%d" % (prop, proto, ring, i), proto, ring, ops))
    rec = tp.record(vh, base, c.d)
    s = []
    for b, sends in rec:
        if sends is None:
            continue
        gates = any(o["op"] == "precompute" for o in b["ops"])
        n = budget(b, gates)
        s += tp.variants(b, sends, rng, n, elem=BITS[b["ring"]] // 8)
        s += [tp.local(b, rng, i) for i in range(max(1, n // 6))]
    if irisb:
        qs = [(["far", "near"], 1), (["far", "far"], 2)]
        ib = [tp.iris_base(prop, proto, r, i, qs[:2]) for i, r in enumerate(rings[:irisb[0]])]
        for b, sends in tp.record(vh, ib, c.d):
            if sends is not None:
                s += tp.variants(b, sends, rng, irisb[1], elem=BITS[b["ring"]] // 8)
    pats = tp.attacks(c.d)
    for b, sends in tp.record(vh, tp.products(prop, proto, rings, extra_verify), c.d):
        if sends is not None:
            if not b["id"].endswith(("signs", "chain")):
                s += tp.concerted(b, sends, pats, rng, size(60, 1500))
            if b["id"].endswith("ors"):
                # only one of the gates
                s += tp.concerted(b, sends, [([1, 0, 0, 0], 0), ([0, 0, 1, 0], 0)], rng, size(40, 300), pairs=False)
            if b["id"].endswith(("signs", "chain")):
                s += tp.concerted(b, sends, [([1, 0, 0], 0), ([0, 1, 0], 0), ([0, 0, 1], 0)], rng, size(48 if b["id"].endswith("chain") else 20, 300), pairs=False)
    if proto != "swift3":
        # parties compare digests: what if the cheater repeats what it has heard
        for i in range(3):
            c.add_model(model("HashCompare", "HashCompare%d.cfg" % i, c.d, bigring=False), "HashCompare: party %d says what it likes" % i)
        for i, w in enumerate(("first two", "own and previous", "any two"), 1):
            c.add_model(model("HashCompare", "HashCompareBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "HashCompare, broken: only %s are compared" % w)
        pick = s[:]
        rng.shuffle(pick)
        pick = [x for x in pick if not any(o["op"] == "precompute" for o in x["ops"]) or rng.random() < 0.15]
        more = tp.imitations(vh, pick[:size(500, 4000)], c.d)
        log("%s: %d sessions with repeated digests" % (prop, len(more)))
        rng.shuffle(more)
        more.sort(key=lambda x: rng.random() * (0.5 if "in concert" in x["tag"]["at"] else 1))
        s += more[:size(300, 5000)]
    res = c.sessions(vh, s, "one deviating party", limit=120)
    fired = sum(1 for r in res if r["fired"] or any(e["op"] in ("corrupt", "bcorrupt") for e in r["ev"]))
    accepted = sum(1 for r in res if r["out"] == ["done"] * 3)
    c.cov["deviations"] = {"sessions": len(res), "with_a_changed_message_or_share": fired, "all_parties_finished_all_the_same": accepted}
    return c, vh, res


def batch_models(c, which):
    c.add_model(model("Batch", "Batch%s.cfg" % which, c.d, bigring=False), "Batch: errors chosen before the challenge are accepted with small probability")
    for i, w in {"Each": ((1, "only the sum is checked"), (2, "one product is not checked"), (3, "no challenge")), "Mac": ((4, "one coefficient for all"),),
                 "Proof": ((5, "one coefficient for all rows"), (6, "one coefficient for all columns"))}[which]:
        c.add_model(model("Batch", "BatchBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "Batch, broken: " + w)


def coin_models(c, kind):
    c.add_model(model("Coin", {"sync": "Coin.cfg", "commit": "CoinCommit.cfg"}[kind], c.d, bigring=False), "Coin: products, then a coin; one party cheats and is in no hurry, all schedules")
    for i, w in ((1, "the coin may be there before the products"), (2, "waits for the wrong party"), (3, "coin before products"), (4, "coin from common randomness")):
        c.add_model(model("Coin", "CoinBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "Coin, broken: " + w)


SCHEDULES = ["random", "lazy", "slow0", "slow1", "slow2", "fast0", "fast1", "fast2"]


def judge_coins(c, vh, s, cases_of, label, limit=60):
    """Runs sessions, judges their results, and judges cases made from what was sent in them."""
    res = c.run(vh, s, label, limit)
    c.judged([{k: v for k, v in r.items() if k != "net"} for r in res], s, label)
    cases, src = [], {}
    for r, x in zip(res, s):
        for n, tag in enumerate(cases_of(x)):
            y = dict(id="%s/%s%d" % (r["id"], tag["kind"], n), net=r["net"], out=r["out"], ev=[], m=[], tag=tag)
            cases.append(y)
            src[y["id"]] = x
    judge_cases(c, cases, src, "SetupTrace", label)
    return res


def challenges(c, vh, proto, ring):
    """The coin that checks a dot product, taken from two sessions that differ by one in one operand."""
    m, last = [], None
    k = BITS[ring]
    for i in range(size(20, 60)):
        rng = rng_for(c.prop, "challenge", i)
        two = []
        for d in (0, 1):
            ops = [dict(op="preprocess"), dict(op="deal", v=hx(5 + d, k), d=1), dict(op="deal", v=hx(7, k), d=2), dict(op="dot", x=1, y=2, d=3), dict(op="open_many", x=3)]
            two.append(scenario("%s-challenge-%d.%d" % (c.prop, i, d), proto, ring, ops, record=True, data=True, ent=[3 * i + 1, 3 * i + 2, 3 * i + 3]))
        two[1]["seed"] = two[0]["seed"]
        a, b = c.run(vh, two, "two operands")
        last = two[0]
        for p in range(3):
            xs, ys = ([e for e in r["net"][p] if e["t"] == "s" and e["o"] == 3] for r in (a, b))
            m.append(dict(a=[e["x"] for e in xs], b=[e["x"] for e in ys]))
    judge_cases(c, [dict(id="%s-challenge" % c.prop, net=[[], [], []], out=["done"] * 3, ev=[], m=m, tag=dict(kind="challenge", ops=[], proof=False))], {"%s-challenge" % c.prop: last}, "SetupTrace", "challenges")


def c07():
    c, vh, res = tamper_check("C07", "malaby3", ["u16", "u64", "i8"], 0, lambda b, g: size(60, 400), (1, size(40, 300)), [])
    batch_models(c, "Each")
    coin_models(c, "sync")
    s = []
    for i in range(size(16, 120)):
        rng = rng_for("C07coin", i)
        ring = ["u16", "u64", "u8"][i % 3]
        k = BITS[ring]
        n = rng.choice([1, 3, 5])
        v = lambda: "".join(hx(rng.getrandbits(k), k) for _ in range(n))
        ops = [dict(op="preprocess"), dict(op="input", v=v(), p=i % 3, d=1), dict(op="deal", v=v(), d=2),
               dict(op="mul", x=1, y=2, d=3), dict(op="dot", x=1, y=2, d=4), dict(op="dot_many", xs=[1, 3, 1], ys=[2, 1, 1], d=5), dict(op="msb_many", x=1, d=1),
               dict(op="bslice", x=1, c=0, n=1, d=2), dict(op="or", x=2, y=2, d=3), dict(op="reduce_or", x=1, c=1, d=4), dict(op="open_many", x=3), dict(op="mul", x=3, y=3, d=6), dict(op="open_many", x=6), dict(op="open_bit", x=4)]
        # some messages are as long as a share of the coin: two products of 128 bits, some products of bits
        if n == 5:
            ops = [o for o in ops if o["op"] not in ("reduce_or", "open_bit")]
        if ring == "u64":
            ops = [dict(o, xs=[1, 2, 1]) if "xs" in o else o for o in ops if o["op"] not in ("mul", "dot", "open_many", "reduce_or", "open_bit")]
        s.append(scenario("C07-coin-%d" % i, "malaby3", ring, ops, policy=SCHEDULES[i % 8], cap=rng.choice([0, 8]), record=True, data=True))
    judge_coins(c, vh, s, lambda x: [dict(kind="rush", coin="share", ops=[], single=[j for j, o in enumerate(x["ops"]) if o["op"] in ("mul", "dot", "dot_many", "or") and not (o["op"] == "mul" and len(x["ops"][1]["v"]) > BITS[x["ring"]] // 4)])], "coins under many schedules")
    challenges(c, vh, "malaby3", "u16")
    return c.end()


def c08():
    c, vh, res = tamper_check("C08", "spdzwise", ["u16", "u32", "i8", "u64"], 1, lambda b, g: size(14 if g else 60, 100 if g else 400), (1, size(16, 120)), [])
    batch_models(c, "Mac")
    c.add_model(model("CutChoose", "CutChoose.cfg", c.d, bigring=False), "CutChoose: wrong triples and gates are found, all errors and permutations")
    for i, w in enumerate(("no permutation", "permuted within words", "words permuted", "no word opened", "no second permutation", "only the front is permuted"), 1):
        c.add_model(model("CutChoose", "CutChooseBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "CutChoose, broken: " + w)
    c.sessions(vh, [x for r in ["u16", "u64"][:size(1, 2)] for x in tp.cutchoose(vh, "C08", r, size(39, 78), c.d)], "wrong triples after the patterns of CutChoose", limit=120)
    coin_models(c, "sync")
    s = []
    for i in range(size(8, 60)):
        rng = rng_for("C08coin", i)
        ring = ["u16", "u32", "u8"][i % 3]
        k = BITS[ring]
        v = lambda: "".join(hx(rng.getrandbits(k), k) for _ in range(3))
        ops = [dict(op="preprocess"), dict(op="newkey"), dict(op="input", v=v(), p=i % 3, d=1), dict(op="input", v=v(), p=(i + 1) % 3, d=2), dict(op="precompute", n=8192), dict(op="mul", x=1, y=2, d=3)]
        for j in range(size(1, 2)):
            ops += [dict(op="msb_many", x=3, d=1), dict(op="reduce_or", x=1, c=1, d=4), dict(op="verify"), dict(op="open_bit", x=4), dict(op="precompute", n=8192)][: 4 if j == size(1, 2) - 1 else 5]
        s.append(scenario("C08-coin-%d" % i, "spdzwise", ring, ops, policy=SCHEDULES[i % 8], cap=rng.choice([0, 8]), record=True))
    judge_coins(c, vh, s, lambda x: [dict(kind="rush", coin="share", ops=[], single=[j for j, o in enumerate(x["ops"]) if o["op"] == "precompute"])], "coins under many schedules", limit=120)
    return c.end()


def c09():
    c, vh, res = tamper_check("C09", "swift3", ["u16", "u32", "i8"], 1, lambda b, g: size(50, 400), None, [])
    batch_models(c, "Proof")
    coin_models(c, "commit")
    # the first coin chooses what is proved, the last one challenges the proofs: a cheater who knew them could prove anything
    s = []
    kinds = [[dict(op="mul", x=1, y=2, d=3)], [dict(op="dot", x=1, y=2, d=4)], [dict(op="msb_many", x=1, d=1)]]
    for i in range(size(15, 100)):
        rng = rng_for("C09coin", i)
        ring = ["u8", "u16", "u32"][i // 3 % 3]
        v = lambda n: "".join(hx(rng.getrandbits(BITS[ring]), BITS[ring]) for _ in range(n))
        ops = [dict(op="preprocess"), dict(op="deal", v=v(3), d=1), dict(op="deal", v=v(3), d=2)]
        ops += kinds[i % 3] + [o for g in rng.sample(kinds, 2 if i > 8 and rng.random() < 0.3 else 0) for o in g]
        ops += [dict(op="verify"), dict(op="open_many", x=1)]
        s.append(scenario("C09-coin-%d" % i, "swift3", ring, ops, policy=SCHEDULES[i % 8], cap=rng.choice([0, 8]), record=True, data=True))
    judge_coins(c, vh, s, lambda x: [dict(kind="order", ops=[len(x["ops"]) - 2], proof=len(x["ops"]) == 6), dict(kind="rush", coin="reveal", ops=[len(x["ops"]) - 2])], "coins under many schedules")
    # the proofs depend on what the others contribute to the coins
    for g in range(3):
        ops = [dict(op="preprocess"), dict(op="deal", v="000500070009", d=1), dict(op="deal", v="123406780777", d=2)] + kinds[g] + [dict(op="verify")]
        base = scenario("C09-depend-%d" % g, "swift3", "u16", ops, record=True, data=True, ent=[11, 22, 33])
        short = dict(base, id=base["id"] + "s", ops=ops[:-1])
        r0, r1 = c.run(vh, [base, short], "a session")
        vs = [(p, dict(base, id="%s-%d.%d" % (base["id"], p, d), flip=[p, d])) for p in range(3) for d in range(r1["draws"][p], r0["draws"][p])]
        m, by = [], {}
        for (p, x), r in zip(vs, c.run(vh, [x for _, x in vs], "sessions with one draw changed")):
            for q in range(3):
                if q != p:
                    a, b = ([e for e in z["net"][q] if e["t"] == "s" and e["o"] == 4] for z in (r0, r))
                    m.append(dict(a=[e["x"] for e in a], b=[e["x"] for e in b], p=p, q=q))
        judge_cases(c, [dict(id=base["id"], net=[[], [], []], out=["done"] * 3, ev=[], m=m, tag=dict(kind="depend", ops=[], proof=False))], {base["id"]: base}, "SetupTrace", "proofs and contributions to coins")
    return c.end()


DAMAGE = [dict(kind="trunc", a=1), dict(kind="trunc", a=8), dict(kind="trunc", a=1 << 40), dict(kind="extend", a=1), dict(kind="extend", a=64),
          dict(kind="empty"), dict(kind="random"), dict(kind="zero"), dict(kind="xorall", b=255), dict(kind="half"), dict(kind="cut"), dict(kind="cut")]


def c10():
    c = Check("C10")
    vh = harness(UNSIGNED)
    s = []
    for proto in PROTOS:
        rng = rng_for("C10", proto)
        rings = {"malaby3": ["u16", "u64"], "swift3": ["u16", "u32"]}.get(proto, ["u16", "u64"])[: size(2, 2)]
        base = tp.bases("C10", proto, rings, 1)
        for b in tp.bases("C10", proto, [r for r in RINGS_U if r not in rings], 1):
            if b["id"].endswith(("-input", "-open", "-dot")):
                base.append(dict(b, light=True))
        ib = [tp.iris_base("C10", proto, "u16", 0, [(["far", "near"], 1)])] if proto != "swift3" else []
        for b, sends in tp.record(vh, base + ib, c.d):
            if sends is None:
                continue
            heavy = any(o["op"] in ("precompute", "iris") for o in b["ops"])
            n = size(30 if heavy else 110, 250 if heavy else 900) // (4 if b.get("light") else 1)
            vs = tp.variants(b, sends, rng, n, kinds=DAMAGE)
            for v in vs:
                v["tag"] = dict(v["tag"], mode="robust")
                v["reject_closed"] = rng.random() < 0.5
                if rng.random() < 0.3:
                    v["cap"] = 8
                    v["policy"] = rng.choice(["random", "lazy", "slow1"])
            s += vs
    res = c.sessions(vh, s, "damaged and missing messages", limit=120)
    c.cov["damage"] = {"sessions": len(res), "with_a_damaged_message": sum(1 for r in res if r["fired"]),
                       "parties_that_ended_with_an_error": sum(1 for r in res for o in r["out"] if o == "err")}
    return c.end()


def refusals(proto, ring):
    """Operations with arguments that make no sense: (name, operations before, operation, needs multiplication)"""
    k = BITS[ring]
    v = lambda *xs: "".join(hx(x, k) for x in xs)
    deal = [dict(op="deal", v=v(*range(n)), d=n) for n in (1, 2, 3, 4)]
    out = [("input-id3", [], dict(op="input", p=3, v=v(5), d=9)), ("input-id7", [], dict(op="input", p=7, v=v(5), d=9))]
    out += [("input-missing-%d" % p, [], dict(op="input", p=p, v=v(5), d=9, f=True)) for p in range(3)]
    if can_mul(proto, ring):
        out += [("dot-2-3", deal, dict(op="dot", x=2, y=3, d=9)), ("dot-4-1", deal, dict(op="dot", x=4, y=1, d=9)),
                ("dotmany-batch", deal, dict(op="dot_many", xs=[2, 2], ys=[2], d=9)),
                ("dotmany-batch2", deal, dict(op="dot_many", xs=[2], ys=[2, 3], d=9)),
                ("dotmany-first", deal, dict(op="dot_many", xs=[2, 3], ys=[3, 3], d=9)),
                ("dotmany-last", deal, dict(op="dot_many", xs=[2, 3, 4], ys=[2, 3, 1], d=9)),
                ("dotmany-swapped", deal, dict(op="dot_many", xs=[2, 3], ys=[3, 2], d=9))]
        full = ir.hexcode(ir.FULL)
        code = [dict(op="dealbits", v=full, d=20, q=True), dict(op="dealbits", v=full, d=21, q=True)]
        short = [dict(op="slice", x=20, c=0, n=ir.N - 1, d=22, q=True), dict(op="cat", xs=[20, 1], d=23, q=True), dict(op="deal", v=v(1), d=1, q=True)]
        out += [("mdot-masks", code, dict(op="mdot", x=20, ys=[21, 21], ms=[full], d=9)),
                ("mdot-masks2", code, dict(op="mdot", x=20, ys=[21], ms=[full, full], d=9)),
                ("mdot-short", code + short[:1], dict(op="mdot", x=20, ys=[21, 22], ms=[full, full], d=9)),
                ("mdot-shortq", code + short[:1], dict(op="mdot", x=22, ys=[21], ms=[full], d=9)),
                ("mdot-long", code + [short[2], short[1]], dict(op="mdot", x=20, ys=[23], ms=[full], d=9))]
        if k > 14:
            q = lambda name, x, ys, n, ch, pre=[]: out.append(("iris-" + name, code + pre, dict(op="iris", x=x, ys=ys, v=full, ms=[full] * n, c=ch)))
            q("empty", 20, [], 0, 1)
            q("masks-few", 20, [21, 20], 1, 1)
            q("masks-many", 20, [21], 2, 2)
            q("query-short", 22, [21], 1, 1, short[:1])
            q("entry-short", 20, [21, 22], 2, 2, short[:1])
            q("entry-short2", 20, [21, 22], 2, 1, short[:1])
            q("entry-long", 20, [23, 21], 2, 2, [short[2], short[1]])
    return out


def c19():
    c = Check("C19")
    vh = harness(ALL)
    s = []
    for proto in PROTOS:
        for ring in size(["u16", "u64", "i32"], RINGS):
            for name, before, op in refusals(proto, ring):
                if (name.startswith("iris") and (proto != "aby3" and ring != "u16")):
                    continue
                if not THOROUGH and name.startswith("mdot") and ring != "u16":
                    continue
                pre = [dict(op="preprocess")]
                if proto == "spdzwise":
                    pre.append(dict(op="dealkey", v=hx(rng_for(proto, ring, name).getrandbits(128), 128 if BITS[ring] >= 64 else 64)))
                s.append(scenario("C19-%s-%s-%s" % (proto, ring, name), proto, ring, pre + before + [op], mode="refuse",
                                  iris=name.startswith("iris"), **(dict() if not name.startswith("input-missing") else dict(bad=op["p"] + 1))))
        # a ring too small for iris codes
        for ring in ["u8", "i8"]:
            s.append(scenario("C19-%s-%s-create" % (proto, ring), proto, ring, [dict(op="preprocess")], mode="refuse", iris=True))
    c.sessions(vh, s, "invalid arguments")
    return c.end()


def c11():
    c = Check("C11")
    vh = harness(["spdzwise", "spdzwise_i"])
    s = families("C11", "keys", size(16, 120), 16, c.d, protos=["spdzwise"])
    see = ("wf", "val", "mac")
    for ring in RINGS:
        k = BITS[ring]
        rng = rng_for("C11", ring)
        v = lambda n: "".join(rng.choice(some(k, rng, 14)) for _ in range(n))
        new, old = dict(op="newkey"), lambda: dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64))

        def batch(d, dealt):
            """values of every origin and what is computed from them"""
            ops = [dict(op="deal", v=v(3), d=d)] if dealt else [dict(op="input", p=rng.randrange(3), v=v(3), d=d)]
            ops += [dict(op="input", p=p, v=v(3), d=d + 1 + p) for p in range(3)]
            ops += [dict(op="add", x=d, y=d + 1, d=d + 4), dict(op="sub", x=d + 2, y=d, d=d + 5), dict(op="mul", x=d, y=d + 3, d=d + 6),
                    dict(op="add_const", x=d + 6, v=v(3), d=d + 7), dict(op="sub_const", x=d + 4, v=v(3), d=d + 8),
                    dict(op="mul_const", x=d + 7, v=v(3), d=d + 9), dict(op="mul", x=d + 9, y=d + 8, d=d + 10),
                    dict(op="dot", x=d + 10, y=d + 1, d=d + 11), dict(op="dot_many", xs=[d + 10, d, d + 5], ys=[d + 2, d + 9, d + 7], d=d + 12),
                    dict(op="add", x=d + 12, y=d + 10, d=d + 13), dict(op="mul", x=d + 13, y=d + 13, d=d + 14)]
            rng.shuffle(ops[4:4])
            return ops + [dict(op=rng.choice(["open", "open_many"]), x=d + rng.randrange(15)) for _ in range(3)]
        for i in range(size(2, 10)):
            ops = [dict(op="preprocess"), new] + batch(100, False) + [dict(op="verify"), new] + batch(200, False)
            ops += [dict(op="verify"), old()] + batch(300, True) + [dict(op="verify"), old()] + batch(400, True) + [dict(op="verify")]
            s.append(scenario("C11-%s-change-%d" % (ring, i), "spdzwise", ring, ops, see=see))
        if can_mul("spdzwise", ring):
            codes = [rng.getrandbits(ir.N) for _ in range(2)]
            ops = [dict(op="preprocess"), old()] + [dict(op="dealbits", v=ir.hexcode(x), d=i + 1, q=True) for i, x in enumerate(codes)]
            ops += [dict(op="mdot", x=1, ys=[2, 1, 2], ms=[ir.hexcode(ir.FULL), ir.hexcode(rng.getrandbits(ir.N)), ir.hexcode(0)], d=10), dict(op="mul", x=10, y=10, d=11),
                    dict(op="open_many", x=11)]
            s.append(scenario("C11-%s-mdot" % ring, "spdzwise", ring, ops, see=see))
    c.sessions(vh, s, "authenticated values")
    return c.end()


def triple_histories(ring, num, depth, d):
    """Histories of the accounting model at the real scale, with operations that use so many gates."""
    k = BITS[ring]
    lg = {8: 3, 16: 4, 32: 5, 64: 6, 128: 7}[k]
    use = {k * (2 + 2 * lg): ("msb", 1), 3 * k * (2 + 2 * lg): ("msb", 3)}
    for n in (1, 128, 129, 300):
        use[((n + 127) // 128) * 128 * (2 * k - 3)] = ("msb_many", n)
    for n in (1, 5, 127, 128, 130):
        use[n] = ("or", n)
    for n in (1, 129, 640):
        use[((n + 127) // 128 - 1) * 128 + 127] = ("reduce_or", n)
    big = 128 * (8192 // (2 * k - 3) + 1)
    use[(big // 128) * 128 * (2 * k - 3)] = ("msb_many", big)
    use[((big - 127) // 128 + 1) // 2 * 128 * (2 * k - 3)] = ("msb_many", ((big - 127) // 128 + 1) // 2 * 128)
    cfg = os.path.join(d, "tri%s.cfg" % ring)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Word = 128\n Min = 8192\n Sizes = {%s}\n MaxStock = 0\n MaxOps = 3\n Depth = %d\n"
                " CountPending = TRUE\n Drain = TRUE\nINVARIANT NeverShort\n" % (", ".join(map(str, sorted(use))), depth))
    r = tlc("Triples", cfg, d, workers=1, bigring=False, args=["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(SEED * 31 + k)])
    if r.violated:
        raise ToolError("Triples: the generator violates its own invariant")
    hs = [json.loads(v) for _, v in tla_strings(r.out, "HISTORY")]
    if len(hs) < num // 3:
        print(r.out[-2000:])
        raise ToolError("Triples: too few histories")
    return hs[:num], use, r


def c12():
    c = Check("C12")
    vh = harness(["spdzwise", "spdzwise_i"])
    c.add_model(model("Triples", "Triples.cfg", c.d, bigring=False), "Triples: stock, announcements, verifications (words of 2 gates, at least 3 words)")
    for b in ("TriplesBad1.cfg", "TriplesBad2.cfg"):
        model("Triples", b, c.d, bigring=False, expect_violation=True)
    s = []
    for ring in size(["u64", "u128", "i32", "u16"], ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]):
        hs, use, r = triple_histories(ring, size(8, 40), size(14, 20), c.d)
        k = BITS[ring]
        for i, h in enumerate(hs):
            rng = rng_for("C12", ring, i)
            one = "".join(some(k, rng, 12)[: 5])
            ops = [dict(op="preprocess"), dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64)),
                   dict(op="deal", v="".join(rng.choice(some(k, rng, 12)) for _ in range(300)), d=1, q=True),
                   dict(op="cat", xs=[1] * 30, d=2, q=True)]
            d = 10
            # bits to work on, from a batch announced for them
            words = 3 * (2 * k - 3)
            ops += [dict(op="precompute", n=words * 128), dict(op="msb_many", x=1, d=1), dict(op="bcat", xs=[1, 1, 1], d=2, q=True)]
            total, n = 0, words
            for e in h:
                if e["op"] == "announce":
                    ops.append(dict(op="precompute", n=e["n"]))
                elif e["op"] == "verify":
                    ops.append(dict(op="verify"))
                elif e["op"] == "use":
                    what, m = use[e["n"]]
                    d += 3
                    if what in ("msb", "msb_many"):
                        src = 1 if m <= 300 else 2
                        ops += [dict(op="slice", x=src, c=rng.randrange((300 if src == 1 else 9000) - m + 1) if m <= 9000 else 0, n=m, d=d, q=True)] if m <= 9000 else \
                               [dict(op="cat", xs=[2] * (m // 9000 + 1), d=d + 1, q=True), dict(op="slice", x=d + 1, c=0, n=m, d=d, q=True)]
                        ops.append(dict(op=what, x=d, d=d, q=m > 300))
                    else:
                        ops += [dict(op="bslice", x=2, c=rng.randrange(900 - m + 1), n=m, d=d, q=True)]
                        if what == "or":
                            ops += [dict(op="bslice", x=2, c=rng.randrange(900 - m + 1), n=m, d=d + 1, q=True), dict(op="or", x=d, y=d + 1, d=d + 2)]
                        else:
                            ops.append(dict(op="reduce_or", x=d, c=rng.choice([1, 2, 1000]), d=d + 2))
            # words that the verifications consumed, as far as the history says
            first = True
            for e in h:
                if e["op"] == "verify":
                    total += e["n"]
            s.append(scenario("C12-%s-%d" % (ring, i), "spdzwise", ring, ops, see=("wf", "val", "stock"), record=True))
            s[-1]["tag"]["words"] = total
    # queries announce for themselves, whatever is still waiting for verification and however many chunks there are
    for ring, n in size([("u128", 33), ("u64", 67), ("u16", 5)], [("u128", 33), ("u128", 70), ("u64", 67), ("i32", 136), ("u16", 290), ("u16", 5)]):
        for i, (before, ch) in enumerate(size([(0, 1), (130, 1), (1, 2)], [(0, 1), (130, 1), (1, 1), (300, 1), (7, 2), (0, 3)])):
            rng = rng_for("C12iris", ring, n, i)
            k = BITS[ring]
            x = ir.session("C12-iris-%s-%d-%d" % (ring, n, i), "spdzwise", ring, [(["far"] * n, ch)] * (2 if n < 10 or THOROUGH else 1), ("C12", ring, n, i), see=("val", "stock"), per_kind=2)
            pre, rest = x["ops"][:2], x["ops"][2:]
            if before:
                pre += [dict(op="deal", v="".join(some(k, rng, before)), d=9000, q=True), dict(op="msb_many", x=9000, d=9000)]
            x["ops"] = pre + rest
            x["record"] = True
            x["tag"]["words"] = ((n + ch - 1) // ch) * ((ch + 127) // 128) * (2 * k - 3) + ((before + 127) // 128) * (2 * k - 3)
            s.append(x)
    t = time.time()
    res = c.run(vh, s, "announced gates", limit=200)
    made = 0
    for r in res:
        r["sent"] = [sum(e["l"] for e in (r["net"][p] if "net" in r else []) if e["t"] == "s" and r["ev"][min(e["o"], len(r["ev"]) - 1)]["op"] in ("precompute", "iris"))
                     for p in range(3)]
        made += min(r["sent"]) // 16
    c.judged(res, s, "announced gates")
    c.cov["triples"] = {"histories": len(s), "words_consumed_by_verifications": sum(x["tag"]["words"] for x in s), "words_sent_in_announcements": made}
    return c.end()


def c13():
    c = Check("C13")
    vh = harness(ALL)
    s = []
    for proto in PROTOS:
        s += families("C13-" + proto, "mixed", size(8, 60), 16, c.d, protos=[proto], rings=[r for r in RINGS if can_verify(proto, r)])

    def sizes(proto, ring, k, rng):
        """all kinds of gates in many numbers between verifications; verifications of nothing"""
        if not can_verify(proto, ring) or not can_mul(proto, ring):
            return None
        v = lambda n: "".join(rng.choice(some(k, rng, 14)) for _ in range(n))
        nv = dict(op="verify")
        ops = [dict(nv), dict(nv)] + [dict(op="deal", v=v(n), d=n) for n in (1, 2, 3, 4, 5, 8, 9, 17, 33)]
        ops += [dict(op="input", p=p, v=v(2), d=40 + p) for p in range(3)] + [dict(nv)]
        sw = proto == "swift3"   # its verifications prove all gates of the session anew: their cost grows fast with their number
        d = 100
        for n in (1, 2, 3, 4, 5, 8, 9, 17):
            ops += [dict(op="mul", x=n, y=n, d=d)] + [dict(nv)] * (not sw or n in (1, 2, 9))
            d += 1
        ops += [dict(nv)] * (not sw) + [dict(op="mul", x=3, y=3, d=d), dict(op="mul", x=9, y=9, d=d + 1), dict(op="open_many", x=d), dict(nv)]
        d += 2
        for n in (1, 2, 3, 4, 5, 8, 9, 17, 33) if not sw else (1, 3, 4, 9):
            ops += [dict(op="dot", x=n, y=n, d=d)] + [dict(nv)] * (not sw or n in (1, 4))
            d += 1
        ops += [dict(op="dot_many", xs=[1, 33, 2, 9] if not sw else [1, 5, 2], ys=[1, 33, 2, 9] if not sw else [1, 5, 2], d=d), dict(op="dot", x=5, y=5, d=d + 1), dict(nv), dict(op="open", x=d)]
        d += 2
        b = 1
        for n in (1, 2, 3, 5, 9) if not sw else (1, 2):
            ops += [dict(op="msb_many", x=n, d=b, _and=256 * k)] + [dict(nv)] * (not sw or n == 2) + [dict(op="precompute", n=1 << 12)] * (proto == "spdzwise")
            b += 1
        ops += [dict(op="or", x=2, y=2, d=b, _and=512)] + [dict(nv)] * (not sw) + [dict(op="precompute", n=1 << 12)] * (proto == "spdzwise")
        ops += [dict(op="bcat", xs=list(range(1, b)), d=b + 1), dict(op="reduce_or", x=b + 1, c=rng.choice([1, 2, 7]), d=b + 2, _and=512)]
        ops += [dict(op="mul", x=2, y=2, d=d), dict(op="dot", x=3, y=3, d=d + 1), dict(op="msb", x=2, d=b + 3, _and=8 * 128 * k)]
        ops += [dict(nv), dict(nv), dict(op="open_bit_many", x=b + 1), dict(op="open_bit", x=b + 2), dict(op="open", x=d), dict(op="open_many", x=d + 1), dict(nv)]
        return ops
    s += systematic("C13", sizes, "sizes", need_mul=True)
    # equal and degenerate values, for which proofs have equal or zero coefficients
    for n in range(size(2, 12)):
        def degenerate(proto, ring, k, rng):
            if not can_verify(proto, ring) or not can_mul(proto, ring):
                return None
            w = [hx(0, k), hx(1, k), hx(-1, k), hx(1 << (k - 1), k)][n % 4]
            ops = [dict(op="deal", v=w * 6, d=1), dict(op="deal", v=hx(0, k) * 6, d=2), dict(op="mul", x=1, y=1, d=3), dict(op="mul", x=2, y=2, d=4),
                   dict(op="verify"), dict(op="dot", x=1, y=2, d=5), dict(op="dot", x=1, y=1, d=6), dict(op="verify"), dict(op="msb_many", x=1, d=1, _and=256 * k),
                   dict(op="msb_many", x=2, d=2, _and=256 * k), dict(op="or", x=1, y=2, d=3, _and=512), dict(op="verify")]
            return ops + [dict(op="open_many", x=r) for r in (3, 4, 5, 6)] + [dict(op="open_bit_many", x=r) for r in (1, 2, 3)]
        s += systematic("C13", degenerate, "degenerate%d" % n, need_mul=True, rings=size(["u8", "u16", "i8", "u32", "i16"], RINGS))
    c.sessions(vh, s, "honest verification", limit=200)
    return c.end()


def c20():
    c = Check("C20")
    vh = harness(["net"])
    c.add_model(model("RingSelfTest", "RingSelfTest.cfg", c.d), "RingSelfTest: evaluation of the rings in TLC agrees with their definitions")
    s = []
    for ring in ["bit"] + RINGS:
        k = BITS.get(ring, 1)
        rng = rng_for("C20", ring)
        if k == 1:
            xs = [hx(v, 1) for v in (0, 0, 1, 1)]
            ys = [hx(v, 1) for v in (0, 1, 0, 1)]
            s.append(dict(id="C20-bit", ring=ring, xs=xs, ys=ys, ns=[0]))
            continue
        xs = [hx(v, k) for v in range(256)] if k == 8 else some(k, rng, size(60, 600)) + [hx(1 << i, k) for i in range(k)] + [hx(-1 << i, k) for i in range(k)]
        for j in range(size(2, 8)):
            ys = [hx(rng.choice([rng.getrandbits(k), rng.getrandbits(k // 2), 1 << rng.randrange(k), rng.randrange(1, 5), -1]), k) for _ in xs]
            ns = sorted(set([0, 1, k // 2, k - 1, rng.randrange(k)]))
            for i in range(0, len(xs), 64):
                s.append(dict(id="C20-%s-%d-%d" % (ring, j, i), ring=ring, xs=xs[i:i + 64], ys=ys[i:i + 64], ns=ns))
    for i in range(size(30, 300)):
        rng = rng_for("C20msg", i)
        cuts = [rng.choice([1, 2, 3, 4, 5, 7, 100, 1 << 20]) for _ in range(rng.choice([1, 1, 3, 9]))]
        s.append(dict(id="C20-msg-%d" % i, ring="msg", xs=[hx(rng.choice([0, 1, rng.getrandbits(8), rng.getrandbits(128)]), 128) for _ in range(rng.choice([1, 2, 5, 20]))],
                      ys=[hx(x, 32) for x in cuts], ns=[rng.choice([0, 1, 16, 100, 5000, 70000 if i % 5 == 0 else 17]) for _ in range(3)]))
    t = time.time()
    res = run_harness(vh, s, c.d, sub="codec")
    log("%d sessions of conversions, %d results in %.1f s" % (len(s), sum(len(r["ev"]) for r in res), time.time() - t))
    c.judged(res, s, "encodings and conversions", module="Codec")
    c.cov["results"] = sum(len(r["ev"]) for r in res)
    return c.end()


POLICIES = ["random", "lazy", "slow0", "slow1", "slow2", "fast0", "fast1", "fast2", "eager"]


def every_op(proto, ring, k, rng):
    """Each operation of the protocol, several times, verifications between."""
    v = lambda n: "".join(rng.choice(some(k, rng, 14)) for _ in range(n))
    nv = [dict(op="verify")] if can_verify(proto, ring) else []
    mul = can_mul(proto, ring)
    ops = [dict(op="input", p=p, v=v(n), d=p + 1) for p, n in ((0, 1), (1, 3), (2, 3))] + [dict(op="deal", v=v(3), d=4)]
    ops += [dict(op="add", x=2, y=3, d=5), dict(op="open_many", x=5), dict(op="open", x=1)]
    if mul:
        ops += [dict(op="mul", x=2, y=3, d=6), dict(op="dot", x=2, y=4, d=7), dict(op="dot_many", xs=[2, 3, 4], ys=[4, 4, 2], d=8)] + nv
        ops += [dict(op="open_many", x=6), dict(op="open", x=7), dict(op="msb_many", x=6, d=1, _and=256 * k), dict(op="msb", x=2, d=2, _and=3 * 256 * k),
                dict(op="or", x=1, y=2, d=3, _and=512), dict(op="reduce_or", x=3, c=2, d=4, _and=512)] + nv
        ops += [dict(op="open_bit_many", x=3), dict(op="open_bit", x=4), dict(op="input", p=1, v=v(2), d=9), dict(op="mul", x=9, y=9, d=10), dict(op="open", x=10)] + nv
    return ops


def c15():
    c = Check("C15")
    vh = harness(UNSIGNED + ["net"])
    s = []
    for proto in PROTOS:
        rings = [r for r in RINGS_U if can_mul(proto, r)]
        fam = families("C15-" + proto, "mixed", size(6, 40), 14, c.d, protos=[proto], rings=rings if THOROUGH else rings[:2] + rings[-1:])
        for i, x in enumerate(fam):
            for pol in rng_for("C15pol", x["id"]).sample(POLICIES, size(3, 9)):
                s.append(dict(x, id="%s-%s" % (x["id"], pol), policy=pol, cap=8, record=True))
        for ring in rings:
            for pol in POLICIES:
                x = systematic("C15", every_op, "each-" + pol, protos=[proto], rings=[ring])[0]
                s.append(dict(x, policy=pol, cap=8, record=True))
    _, ps = ir.plans(c.d)
    ok = [p for p in ps if p["res"] != "refused"]
    for proto in PROTOS:
        for i, pol in enumerate(POLICIES if proto != "swift3" else POLICIES[:3]):
            rng = rng_for("C15iris", proto, pol)
            qs = [(p["db"], p["chunk"]) for p in rng.sample(ok, size(2, 5) if proto != "swift3" else 1)]
            s.append(dict(ir.session("C15-iris-%s-%s" % (proto, pol), proto, "u16", qs, ("C15", proto, i), full_mask=i % 3 == 0, see=("val",)),
                          policy=pol, cap=8, record=True))
    for proto in ["aby3", "malaby3", "spdzwise"][: size(2, 3)]:
        kinds = ["far"] * 300
        kinds[rng_for("C15big", proto).randrange(300)] = "near"
        s.append(dict(ir.session("C15-big-" + proto, proto, "u16", [(kinds, 2), (kinds, 300)], ("C15big", proto), see=("val",)), policy="random", cap=8, record=True))
    # long vectors: whoever sent them in pieces would have to receive in between
    for proto in PROTOS:
        rng = rng_for("C15long", proto)
        ring = "u16"
        n = size(20000, 60000)
        v = "".join(hx(rng.getrandbits(16), 16) for _ in range(n))
        ops = [dict(op="preprocess")] + ([dict(op="precompute", n=100 * n)] if proto == "spdzwise" else [])
        ops += [dict(op="deal", v=v, d=1), dict(op="open_many", x=1), dict(op="deal", v=v[:8], d=2), dict(op="dot_many", xs=[2] * 9000, ys=[2] * 9000, d=3), dict(op="open_many", x=3),
                dict(op="msb_many", x=1, d=1), dict(op="open_bit_many", x=1), dict(op="reduce_or", x=1, c=n, d=2), dict(op="open_bit", x=2)]
        s.append(scenario("C15-long-%s" % proto, proto, ring, ops, policy="random", cap=8, record=True, light=True))
    res = c.sessions(vh, s, "timing", limit=120)
    # the communication of those sessions, replayed on bounded links in TLA+
    nets = [dict(id=r["id"], net=r["net"], ev=[]) for r in res if "net" in r and all(o == "done" for o in r["out"])]
    j = judge(nets, c.d, module="Links", name="links")
    c.states += j.states
    c.transitions += j.generated
    by = {x["id"]: x for x in s}
    for r in nets:
        if j.verdicts[r["id"]] != "ok":
            c.violation(by[r["id"]], j.verdicts[r["id"]])
    # all orders of the steps of short sessions
    short = []
    for proto in PROTOS:
        for name, ops in (("open", [dict(op="input", p=1, v="05", d=1), dict(op="open", x=1)]),
                          ("mul", [dict(op="deal", v="0507", d=1), dict(op="mul", x=1, y=1, d=2), dict(op="open_many", x=2)]),
                          ("dot", [dict(op="deal", v="0507", d=1), dict(op="dot", x=1, y=1, d=2), dict(op="verify"), dict(op="open", x=2)]),
                          ("msb", [dict(op="deal", v="85", d=1), dict(op="msb_many", x=1, d=1), dict(op="open_bit", x=1)])):
            x = scenario("C15-all-%s-%s" % (proto, name), proto, "u8", [dict(op="preprocess")] + ops, policy="random", cap=8, record=True)
            short.append(x)
    r2 = c.sessions(vh, short, "short sessions")
    few = [dict(id=r["id"], net=r["net"], ev=[]) for r in r2 if all(len(n) <= size(90, 400) for n in r["net"])]
    j = judge(few, c.d, module="Links", name="all", cfg="LinksAll.cfg")
    c.states += j.states
    c.transitions += j.generated
    log("all orders of the communication of %d short sessions: %d states" % (len(few), j.states))
    c.cov["orders_explored"] = dict(sessions=[r["id"] for r in few], states=j.states)
    by = {x["id"]: x for x in short}
    for r in few:
        if j.verdicts[r["id"]] != "ok":
            c.violation(by[r["id"]], j.verdicts[r["id"]])
    # the protocols over the repository's own network
    os.environ["VH_CERTS"] = os.path.join(c.d, "certs")
    rc, o = sh([vh, "certs", os.environ["VH_CERTS"]])
    if rc != 0:
        raise ToolError("certificates: " + o[-500:])
    real = []
    for proto in PROTOS:
        for ring in [r for r in RINGS_U if can_mul(proto, r)]:
            x = systematic("C15", every_op, "real", protos=[proto], rings=[ring])[0]
            real.append(dict(x, real=True))
            for i in range(size(1, 6)):
                rng = rng_for("C15real", proto, ring, i)
                real.append(dict(x, id=x["id"] + "-slow%d" % i, real=True, jitter=rng.choice([2, 10]), delays=[rng.choice([0, 100, 500]) for _ in range(3)]))
        rng = rng_for("C15realiris", proto)
        qs = [(p["db"], p["chunk"]) for p in rng.sample(ok, 2 if proto != "swift3" else 1)]
        real.append(dict(ir.session("C15-realiris-" + proto, proto, "u16", qs, ("C15r", proto), see=("val",)), real=True, jitter=1))
    res = c.run(vh, real, "protocols over the real network", limit=100)
    for i, r in enumerate(res):
        # a loaded machine can make a session miss its time: once more, alone
        if any(o in ("hang", "abort") for o in r["out"]):
            log("again: " + r["id"])
            res[i] = c.run(vh, [real[i]], "again", limit=100)[0]
    c.judged(res, real, "protocols over the real network")
    return c.end()


def run_net(c, vh, s, label, threads=12):
    from vlib import run_harness
    t = time.time()
    limit = max(x["limit"] for x in s) / 1000 + 60
    out = os.path.join(c.d, "net.out")
    inp = os.path.join(c.d, "net.in")
    with open(inp, "w") as f:
        for x in s:
            f.write(json.dumps(x) + "\n")
    rc, o = sh([vh, "net", inp, out, os.path.join(c.d, "certs")], env={"VH_THREADS": str(threads)}, timeout=800)
    if rc != 0:
        print(o[-3000:])
        raise ToolError("harness ended with %d" % rc)
    res = [None] * len(s)
    for l in open(out):
        i, r = json.loads(l)
        res[i] = r
    log("%s: %d sessions over the real network in %.1f s" % (label, len(s), time.time() - t))
    # a loaded machine can make a session miss its time: what did not end well is run once more, alone
    bad = [i for i, r in enumerate(res) if s[i]["tag"] != "refuse" and any(o != "done" for o in r["out"])]
    for i in bad[:6]:
        with open(inp, "w") as f:
            f.write(json.dumps(s[i]) + "\n")
        rc, o = sh([vh, "net", inp, out, os.path.join(c.d, "certs")], env={"VH_THREADS": "1"}, timeout=800)
        if rc == 0:
            r = json.loads(open(out).readline())[1]
            log("again: %s ended with %s, before with %s" % (s[i]["id"], r["out"], res[i]["why"]))
            if any(o == "hang" for o in res[i]["out"]) and all(o == "done" for o in r["out"]):
                res[i] = r
    return res


RELAYS = [[20, 10, 5], [0, 0, 30], [100, 50, 0], [50, 0, 20], [0, 300, 3]]


def c17():
    import net
    c = Check("C17")
    vh = harness(["net"])
    c.add_model(model("ChannelQ", "ChannelQ.cfg", c.d, bigring=False), "ChannelQ: one direction of a managed channel, and its end")
    for i, w in ((1, "connection closed without waiting"), (2, "two writers"), (3, "jobs dropped when the queue is full")):
        c.add_model(model("ChannelQ", "ChannelQBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "ChannelQ, broken: " + w)
    s = []
    # one party is silent for longer than the idle timeout, the slowest first
    s.append(net.aby3("C17-idle", [[dict(a="sleep", l=70000), dict(a="snext", l=9, m=1), dict(a="rprev")], [dict(a="rprev"), dict(a="snext", l=9, m=2)],
                                  [dict(a="rprev"), dict(a="snext", l=9, m=3)]], limit=110000))
    frame = 8 << 20
    s.append(net.aby3("C17-frame", [[dict(a="snext", l=frame, m=5), dict(a="sprev", l=frame - 1, m=6), dict(a="snext", l=1, m=7), dict(a="rprev")],
                                   [dict(a="rprev"), dict(a="rprev"), dict(a="snext", l=frame, m=8)], [dict(a="rnext"), dict(a="rprev"), dict(a="snext", l=frame, m=9)]], limit=110000))
    for i in range(size(60, 500)):
        rng = rng_for("C17mesh", i)
        n = rng.choice([2, 3, 3, 3, 4, 5])
        ids = sorted(rng.sample(range(8), n)) if i % 3 else list(range(n))
        sets = [rng.choice(["raw", "raw", "bincode", "direct"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        lists = [rng.sample(ids, n) for _ in ids]
        waits = i % 4 == 0
        sizes = rng.choice([net.SMALL, net.MEDIUM, net.MEDIUM, net.LARGE])
        if waits:
            sizes = net.SMALL
        prog = net.weave(rng, ids, net.links(ids, len(sets)), rng.choice([20, 60, 150]) if sizes is not net.LARGE else 25, sizes, waits=waits,
                         lag=rng.choice([0, 0, 0.1]), posts=rng.choice([0, 0.3, 1]), byset=dict(enumerate(sets)))
        s.append(net.mesh("C17-mesh%d" % i, ids, lists, [0] * n, sets, prog, close=i % 2 == 0))
    for i in range(size(60, 500)):
        rng = rng_for("C17aby3", i)
        sizes = rng.choice([net.SMALL, net.MEDIUM, net.LARGE])
        prog = net.weave(rng, [0, 1, 2], net.links([0, 1, 2]), rng.choice([10, 60, 150]) if sizes is not net.LARGE else 25, sizes, mode="aby3", lag=rng.choice([0, 0, 0.1]))
        s.append(net.aby3("C17-aby3-%d" % i, prog, hold=i % 4 == 0))
    # bursts, and parties that end at once after what they sent
    for i in range(size(60, 400)):
        rng = rng_for("C17end", i)
        k, big = rng.choice([1, 2, 8, 30]), rng.choice([1, 100, 65536, 1 << 20])
        a = rng.randrange(3)
        prog = [[], [], []]
        for j in range(k):
            prog[a].append(dict(a="snext", l=rng.choice([big, 1]), m=j))
            prog[a].append(dict(a="sprev", l=rng.choice([big, 1]), m=100 + j))
            prog[(a + 1) % 3].append(dict(a="rprev"))
            prog[(a + 2) % 3].append(dict(a="rnext"))
        slow = rng.choice([1, 2])
        prog[(a + slow) % 3].insert(rng.randrange(k + 1), dict(a="sleep", l=rng.choice([10, 100, 300])))
        s.append(net.aby3("C17-end%d" % i, prog))
    for i in range(size(30, 200)):
        rng = rng_for("C17bcast", i)
        s.append(net.aby3("C17-bcast%d" % i, net.rounds(rng, rng.choice([1, 3, 10]), rng.choice([net.SMALL, net.MEDIUM])), hold=i % 3 == 0))
    # a network that loses, doubles and delays datagrams
    for i in range(size(40, 300)):
        rng = rng_for("C17bad", i)
        how = RELAYS[i % len(RELAYS)]
        sizes = rng.choice([net.SMALL, net.MEDIUM])
        if i % 3 == 0:
            s.append(net.aby3("C17-bad%d" % i, net.weave(rng, [0, 1, 2], net.links([0, 1, 2]), 40, sizes, mode="aby3"), limit=90000 + i, relay=how))
        elif i % 3 == 1:
            sets = [rng.choice(["raw", "bincode"]) for _ in range(2)]
            s.append(net.mesh("C17-bad%d" % i, [0, 1, 2], [[0, 1, 2]] * 3, [0] * 3, sets, net.weave(rng, [0, 1, 2], net.links([0, 1, 2], 2), 40, sizes, byset=dict(enumerate(sets))), limit=90000 + i, close=i % 2 == 0, relay=how))
        else:
            # a party that ends at once after what it sent
            prog = [[dict(a="snext", l=rng.choice(sizes), m=j) for j in range(8)], [dict(a="rprev")] * 8, []]
            s.append(net.aby3("C17-bad%d" % i, prog, limit=90000 + i, relay=how))
    res = run_net(c, vh, s, "messages")
    c.judged(res, s, "messages over the real network", module="NetTrace")
    c.cov["messages"] = sum(1 for r in res for p in r["log"] for e in p if e["a"] == "recv")
    return c.end()


def c18():
    import net
    c = Check("C18")
    vh = harness(["net"])
    c.add_model(model("Establish", "Establish.cfg", c.d, bigring=False), "Establish: three parties, all list orders, all schedules")
    c.add_model(model("Establish", "Establish4.cfg", c.d, bigring=False), "Establish: four parties")
    for i, w in ((1, "label by list entry"), (2, "channels made in any order")):
        c.add_model(model("Establish", "EstablishBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "Establish, broken: " + w)
    s = []
    from itertools import permutations
    s.append(net.aby3("C18-late", net.probe([0, 1, 2], 1), delays=[25000, 0, 3000], limit=60000))
    s.append(net.mesh("C18-late1", [0, 1, 2], [[2, 1, 0]] * 3, [0, 20000, 100], ["raw", "bincode"], net.probe([0, 1, 2], 2), limit=60000))
    perms = [list(p) for p in permutations(range(3))]
    # every order of starting, with every order of the list
    k = 0
    for st in perms:
        for i, l in enumerate(perms):
            for gap in size([0, 250], [0, 20, 250, 1500]):
                rng = rng_for("C18", k)
                lists = [l, l, l] if gap == 0 else [l, rng.choice(perms), rng.choice(perms)]
                if k % 2:
                    s.append(net.aby3("C18-a%d" % k, net.probe([0, 1, 2], 1), lists=lists, delays=[gap * x for x in st]))
                else:
                    sets = rng.choice([["raw"], ["raw", "bincode", "direct"], ["bincode", "raw"]])
                    s.append(net.mesh("C18-m%d" % k, [0, 1, 2], lists, [gap * x for x in st], sets, net.probe([0, 1, 2], len(sets))))
                k += 1
    for i in range(size(30, 300)):
        rng = rng_for("C18r", i)
        delays = [rng.choice([0, 5, 50, 300, 1100, 2500]) for _ in range(3)]
        s.append(net.aby3("C18-r%d" % i, net.probe([0, 1, 2], 1), lists=[rng.sample(range(3), 3) for _ in range(3)], delays=delays))
    for i in range(size(20, 200)):
        rng = rng_for("C18n", i)
        n = rng.choice([2, 4, 5])
        ids = rng.sample(range(8), n)
        sets = rng.choice([["raw"], ["bincode", "raw"], ["raw"] * 4])
        s.append(net.mesh("C18-n%d" % i, ids, [rng.sample(ids, n) for _ in ids], [rng.choice([0, 0, 50, 400]) for _ in ids], sets, net.probe(ids, len(sets))))
    # refused
    bad = [("own", [[1, 2, 3], [0, 2, 3], [0, 1, 3]], (0, 1, 2)), ("dup", [[0, 1, 1], [1, 0, 0], [2, 1, 1]], (0, 1, 2)),
           ("dupown", [[0, 0, 1], [1, 1, 2], [2, 2, 0]], (0, 1, 2)), ("duporder", [[0, 1, 0], [1, 2, 1], [2, 0, 2]], (0, 1, 2)),
           ("duplast", [[1, 0, 1], [0, 1, 0], [1, 2, 1]], (0, 1, 2)),
           ("two", [[0, 1], [1, 0]], (0, 1)), ("four", [[0, 1, 2, 3]] * 4, (0, 1, 2, 3)), ("one", [[0]], (0,)),
           ("id5", [[0, 1, 5]] * 3, (0, 1, 5)), ("id3", [[3, 1, 2]] * 3, (3, 1, 2)), ("ids", [[3, 4, 5]] * 3, (3, 4, 5)), ("empty", [[], [], []], (0, 1, 2)),
           ("dup4", [[0, 1, 2, 0], [0, 1, 2, 1], [0, 1, 2, 2]], (0, 1, 2))]
    for n, l, ids in bad:
        s.append(net.aby3("C18-bad-" + n, [[] for _ in ids], lists=l, ids=ids, tag="refuse", limit=20000))
    for n, l, ids in [("own", [[1, 2, 3], [0, 2, 3], [0, 1, 3]], [0, 1, 2]), ("dup", [[0, 1, 1], [1, 0, 0], [2, 1, 1]], [0, 1, 2]),
                      ("duporder", [[0, 1, 2, 0], [1, 2, 0, 1], [2, 0, 1, 2]], [0, 1, 2]), ("dup2", [[1, 0, 1], [0, 1, 0]], [0, 1]), ("none", [[], []], [4, 5])]:
        s.append(dict(net.mesh("C18-mbad-" + n, ids, l, [0] * len(ids), ["raw"], [[] for _ in ids], limit=20000), tag="refuse"))
    for i in range(size(20, 150)):
        rng = rng_for("C18bad", i)
        s.append(net.aby3("C18-l%d" % i, net.probe([0, 1, 2], 1), lists=[rng.sample(range(3), 3) for _ in range(3)], delays=[rng.choice([0, 0, 300]) for _ in range(3)],
                          limit=90000 + i, relay=RELAYS[i % len(RELAYS)]))
    res = run_net(c, vh, s, "connections")
    c.judged(res, s, "connections of the real network layer", module="NetTrace")
    # many at a time: the schedules of a busy machine
    s = [net.aby3("C18-busy%d" % i, net.probe([0, 1, 2], 1, k=1), limit=60000) for i in range(size(1500, 20000))]
    res = run_net(c, vh, s, "connections on a busy machine", threads=32)
    c.judged(res, s, "connections on a busy machine", module="NetTrace")
    return c.end()

# ---------------------------------------------------------------------------------------------
def pack_bits(x):
    return "".join("%02x" % int(x[i:i + 8], 2) for i in range(0, len(x) - 7, 8))


def fresh_ops(proto, ring, n, m, w, rng, reps, long):
    """Operations on dealt operands, of n elements, of m where each is a call, of w bits where each is a call:
    (operations before, [(name, elements' bytes, full, calls, operation)])"""
    k = BITS[ring]
    e = {"spdzwise": 16 if k >= 64 else 8}.get(proto, k // 8)
    v = lambda n: "".join(hx(rng.getrandbits(k), k) for _ in range(n))
    b = lambda n: "".join(rng.choice("01") for _ in range(n))
    pre = [dict(op="preprocess")]
    if proto == "spdzwise":
        pre += [dict(op="dealkey", v=hx(rng.getrandbits(128), 8 * e)), dict(op="precompute", n=reps * (2 * k * n + 8 * n) + 4096)]
    pre += [dict(op="deal", v=v(n), d=1, q=True), dict(op="deal", v=v(m), d=3, q=True), dict(op="deal", v=v(m), d=4, q=True),
            dict(op="bdeal", v=b(n), d=1, q=True), dict(op="bdeal", v=b(w), d=3, q=True), dict(op="bdeal", v=b(w), d=4, q=True)]
    pre += [dict(op="deal", v=v(4), d=100 + i, q=True) for i in range(64)]
    xs = list(range(100, 164)) * max(1, m // 64)
    vin = v(m)
    ops = [("input%d" % p, e, True, m, dict(op="input", p=p, v=vin)) for p in range(3)]
    if can_mul(proto, ring):
        ops += [("mul", e, True, m, dict(op="mul", x=3, y=4)), ("dots", e, True, 1, dict(op="dot_many", xs=xs, ys=xs[::-1])),
                ("msb", 1, proto != "malaby3", 1, dict(op="msb_many", x=1)), ("or", 1, False, w, dict(op="or", x=3, y=4)),
                ("reduce", 1, False, 1, dict(op="reduce_or", x=1, c=w))]
        if long and ring == "u16":
            code = lambda: ir.hexcode(rng.getrandbits(ir.N))
            pre += [dict(op="dealbits", v=code(), d=20 + i, q=True) for i in range(3)]
            ops.append(("mdot", e, True, 1, dict(op="mdot", x=20, ys=[21, 22] * 32, ms=[code()] * 64)))
    return pre, ops


def fresh_session(sid, proto, ring, sizes, reps, long, secrets=0, **kw):
    rng = rng_for("C16", proto, ring, reps, secrets)
    pre, ops = fresh_ops(proto, ring, *sizes, rng, reps, long)
    prog, at, d = list(pre), {}, 1000
    for name, _, _, _, o in ops:
        for _ in range(reps):
            d += 1
            at.setdefault(name, []).append(len(prog))
            prog.append(dict(o, d=d, q=reps == 1))
    if proto == "swift3" and can_verify(proto, ring) and reps == 1:
        prog = [dict(op="preprocess"), dict(op="deal", v="".join(hx(rng.getrandbits(BITS[ring]), BITS[ring]) for _ in range(8)), d=1), dict(op="mul", x=1, y=1, d=2),
                dict(op="verify")] if long else prog
        if long:
            at, ops = {"verify": [3]}, [("verify", 1, False, 1, None)]
    sc = scenario(sid, proto, ring, prog, record=True, data=True, seed=rng_for("C16s", proto, ring, secrets).getrandbits(31),
                  ent=[rng_for("C16e", proto, ring, p).getrandbits(40) for p in range(3)], see=("wf",), keep=[0] + [o for l in at.values() for o in l], **kw)
    return sc, ops, at


def links_of(r, op):
    """{(from, to): [messages sent in the operation]}"""
    out = {}
    for p in range(3):
        for ev in r["net"][p]:
            if ev["t"] == "s" and ev["o"] == op:
                out.setdefault((p, ev["p"]), []).append(ev["x"])
    return out


def c16():
    c = Check("C16")
    c.add_model(model("Mask", "Mask.cfg", c.d, bigring=False), "Mask: messages masked with pairwise randomness, all values, views compared")
    for i, w in ((1, "mask known to the receiver"), (2, "mask used twice"), (3, "mask of fewer values"), (4, "no mask")):
        c.add_model(model("Mask", "MaskBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "Mask, broken: " + w)
    vh = harness(UNSIGNED)
    rings = size(["u16", "u8"], RINGS_U)
    combos = [(p, r) for p in PROTOS for r in rings]
    cases, src = [], {}

    def case(cid, sc, **kw):
        src[cid] = sc
        cases.append(dict(dict(id=cid, ev=[], base=dict(seen="", m=[]), vars=[], reps=[], other=[]), **kw))

    def ended(rs, xs, label):
        """What is recorded has to be right in the first place."""
        c.judged([{k: v for k, v in r.items() if k != "net"} for r in rs], xs, label)
        return {r["id"]: r for r in rs if r["out"] == ["done"] * 3}
    # repetitions on the same operands
    size_of = lambda proto, ring: (2048 if ring in ("u8", "u16") else 512) // (8 if proto == "malaby3" else 1)
    dims = lambda proto, ring: (lambda n: (n, n // 2, 256) if proto != "malaby3" else (n, 64, 128))(size_of(proto, ring))
    both = {s: {(p, r): fresh_session("C16-reps-%s-%s%s" % (p, r, "-other" * s), p, r, dims(p, r), 3, True, secrets=s) for p, r in combos} for s in (0, 1)}
    built = both[0]
    xs = [x[0] for b in both.values() for x in b.values()]
    res = ended(c.run(vh, xs, "operations repeated", limit=200), xs, "operations repeated")
    oth = {k: res.get(x[0]["id"]) for k, x in both[1].items()}
    for (proto, ring), (sc, ops, at) in built.items():
        r = res.get(sc["id"])
        if not r:
            continue
        for name, e, full, calls, _ in ops:
            cid = "C16-%s-%s-%s" % (proto, ring, name)
            reps = [links_of(r, o) for o in at[name]]
            other = links_of(oth[proto, ring], at[name][0]) if oth.get((proto, ring)) else {}
            for f, t in sorted(set(l for x in reps for l in x)):
                case("%s-%d%d" % (cid, f, t), sc, tag=dict(e=e, full=full, n=calls), reps=[x.get((f, t), []) for x in reps], other=other.get((f, t), []))
            for p in range(3):
                rs = [r["ev"][o]["r"][p]["s"] for o in at[name]]
                if name in ("msb", "or", "reduce"):
                    rs = [[pack_bits(x) for x in y] for y in rs]
                case("%s-share%d" % (cid, p), sc, tag=dict(e=1 if name in ("msb", "or", "reduce") else e, full=True, n=1), reps=rs)
    # one draw of one party changed
    dims = lambda proto: (512, 64, 128) if proto != "malaby3" else (128, 64, 128)
    both = {s: {(p, r, long): fresh_session("C16-base-%s-%s-%s%s" % (p, r, long, "-other" * s), p, r, dims(p), 1, long, secrets=s)
                for p, r in combos for long in ((False, True) if p == "swift3" and can_verify(p, r) else (False,))} for s in (0, 1)}
    built = both[0]
    xs = [x[0] for b in both.values() for x in b.values()]
    res0 = ended(c.run(vh, xs, "sessions", limit=200), xs, "sessions")
    xs, of = [], {}
    for key, (sc, _, _) in built.items():
        r = res0.get(sc["id"])
        for v in range(3) if r else ():
            for d in range(min(r["draws"][v], 14)):
                x = dict(sc, id="%s-%d.%d" % (sc["id"], v, d), flip=[v, d])
                xs.append(x)
                of.setdefault(key, []).append((v, x["id"]))
    res = {r["id"]: r for r in c.run(vh, xs, "sessions with one draw changed", limit=200)}
    c.cov["draws_changed"] = len(xs)
    for key, (sc, ops, at) in built.items():
        r0 = res0.get(sc["id"])
        if not r0:
            continue
        seen = lambda x, to: "|".join(e["x"] for e in x["net"][to] if e["t"] == "r" and e["o"] == 0)
        for name, e, full, calls, _ in ops:
            b0 = links_of(r0, at[name][0])
            o = res0.get(both[1][key][0]["id"])
            o = links_of(o, at[name][0]) if o else {}
            for f, t in sorted(b0):
                vs = [dict(seen=seen(res[i], t), m=links_of(res[i], at[name][0]).get((f, t), [])) for v, i in of[key] if v != t]
                case("C16-%s-%s-%s-%d%d-hidden" % (key[0], key[1], name, f, t), sc, tag=dict(e=e, full=full, n=calls),
                     base=dict(seen=seen(r0, t), m=b0[f, t]), vars=vs, other=o.get((f, t), []))
    judge_cases(c, cases, src, "Fresh", "messages and shares")
    c.cov["with_sessions_the_receiver_cannot_tell_apart"] = sum(1 for x in cases if any(v["seen"] == x["base"]["seen"] for v in x["vars"]))
    c.cov["without"] = [x["id"] for x in cases if x["vars"] and not any(v["seen"] == x["base"]["seen"] for v in x["vars"])]
    c.cov["messages_judged"] = sum(len(x["base"]["m"]) + sum(map(len, x["reps"])) for x in cases)
    return c.end()


def judge_cases(c, cases, src, module, label):
    j = judge(cases, c.d, module=module, name=module.lower())
    c.states += j.states
    c.transitions += j.generated
    c.cov.setdefault("cases", {})[label] = len(cases)
    for x in cases:
        if j.verdicts[x["id"]] != "ok":
            log("%s: %s" % (x["id"], j.verdicts[x["id"]]))
            c.violation(dict(src[x["id"]], id=x["id"]), j.verdicts[x["id"]])



def c14():
    c = Check("C14")
    c.add_model(model("Setup", "Setup.cfg", c.d, bigring=False), "Setup: commit and reveal, one party cheats, all schedules")
    for i, w in ((1, "reveals without waiting"), (2, "openings not compared")):
        c.add_model(model("Setup", "SetupBad%d.cfg" % i, c.d, bigring=False, expect_violation=True), "Setup, broken: " + w)
    vh = harness(UNSIGNED)
    # order, and what is needed to say that keys agree
    s, orders = [], []
    policies = ["eager", "random", "random", "lazy"] + ["slow%d" % p for p in range(3)] + ["fast%d" % p for p in range(3)]
    for proto in PROTOS:
        rings = [r for r in RINGS_U if can_verify(proto, r)]
        for i in range(size(20, 120)):
            rng = rng_for("C14", proto, i)
            ring, pol = rings[i % len(rings)], policies[i % len(policies)]
            v = lambda n: "".join(hx(rng.getrandbits(BITS[ring]), BITS[ring]) for _ in range(n))
            ops = [dict(op="preprocess")] + ([dict(op="newkey"), dict(op="precompute", n=1024)] if proto == "spdzwise" else [])
            ops += [dict(op="input", p=p, v=v(3), d=p + 1) for p in range(3)]
            if can_mul(proto, ring):
                ops += [dict(op="mul", x=1, y=2, d=4), dict(op="mul", x=4, y=3, d=5), dict(op="verify"), dict(op="msb_many", x=5, d=1), dict(op="open_bit_many", x=1)]
            ops += [dict(op="open_many", x=1), dict(op="verify"), dict(op="open_many", x=3)]
            x = scenario("C14-%s-%s-%d" % (proto, ring, i), proto, ring, ops, policy="" if pol == "eager" else pol, cap=rng.choice([0, 8]), record=True, data=True)
            s.append(x)
    res = c.run(vh, s, "sessions", limit=60)
    c.judged([{k: v for k, v in r.items() if k != "net"} for r in res], s, "sessions under many schedules")
    cases, src = [], {}
    by = {x["id"]: x for x in s}

    def case(x):
        cases.append(x)
        src[x["id"]] = by[x["id"].split("/")[0]] if x["id"].split("/")[0] in by else x
    for r in res:
        if r["proto"] in ("malaby3", "swift3") and r["out"] == ["done"] * 3:
            x = by[r["id"]]
            case(dict(id=r["id"] + "/setup", net=r["net"], out=r["out"], ev=[], m=[], tag=dict(kind="order", ops=[0], proof=False)))
            if r["proto"] == "swift3":
                vs = [i for i, o in enumerate(x["ops"]) if o["op"] == "verify"]
                case(dict(id=r["id"] + "/coin", net=r["net"], out=r["out"], ev=[], m=[], tag=dict(kind="order", ops=vs[:1], proof=False)))
    # keys of different sessions and parties
    for proto in PROTOS:
        m = []
        for r in res:
            if r["proto"] == proto and r["out"] == ["done"] * 3:
                for p in range(3):
                    xs = [e["x"] for e in r["net"][p] if e["t"] == "s" and e["o"] == 0]
                    # what was revealed, not what was committed to
                    xs = xs[len(xs) // 2:] if proto in ("malaby3", "swift3") else xs
                    m += [dict(s=r["id"], p=p, x=y, rand=proto in ("malaby3", "swift3")) for y in xs]
        case(dict(id="C14-keys-" + proto, net=[[], [], []], out=["done"] * 3, ev=[], m=m, tag=dict(kind="keys", ops=[], proof=False)))
    # every contribution has an effect
    for proto in PROTOS:
        ring = "u64" if proto != "swift3" else "u32"
        v = "".join(hx(7 + i, BITS[ring]) for i in range(8))
        ops = [dict(op="preprocess")] + ([dict(op="dealkey", v=hx(0x1234567, 128))] if proto == "spdzwise" else []) + [dict(op="input", p=p, v=v, d=p + 1) for p in range(3)]
        base = scenario("C14-effect-" + proto, proto, ring, ops + [dict(op="mul", x=1, y=2, d=4)], record=True, data=True, keep=[0], ent=[101, 202, 303])
        r0 = c.run(vh, [base], "a session")[0]
        by[base["id"]] = base
        vs = [(p, dict(base, id="%s-%d.%d" % (base["id"], p, d), flip=[p, d])) for p in range(3) for d in range(min(12, r0["draws"][p]))]
        m = []
        for (p, x), r in zip(vs, c.run(vh, [x for _, x in vs], "sessions with one draw changed")):
            for q in range(3):
                # the last message is what was revealed
                a, b = ([e["x"] for e in z["net"][p] if e["t"] == "s" and e["p"] == q] for z in (r0, r))
                if a and b:
                    m.append(dict(a=a[-1], b=b[-1], rand=proto in ("malaby3", "swift3"), x=json.dumps([e["r"] for e in r0["ev"]]), y=json.dumps([e["r"] for e in r["ev"]])))
        case(dict(id=base["id"], net=[[], [], []], out=r0["out"], ev=[], m=m, tag=dict(kind="effect", ops=[], proof=False)))
    # a contribution that does not match its commitment
    bad = []
    for proto in ("malaby3", "swift3"):
        ring = "u16"
        ops = [dict(op="preprocess"), dict(op="deal", v="00050007", d=1), dict(op="mul", x=1, y=1, d=2)] + ([dict(op="verify")] if proto == "swift3" else [])
        base = scenario("C14-bad-" + proto, proto, ring, ops)
        (b, sends), = tp.record(vh, [base], c.d)
        if sends is None:
            continue
        for op in [0] + ([3] if proto == "swift3" else []):
            for p in range(3):
                able = [x for x in sends[p] if x[0] == op and x[3] in (64, 128)]
                for _, nth, to, ln in able:
                    rng = rng_for("C14bad", proto, op, p, nth)
                    unit = range(0, ln, 32)
                    where = [u + rng.randrange(32) for u in unit] + [0, ln - 1] + [rng.randrange(ln) for _ in range(size(2, 40))]
                    for w in where:
                        bad.append(dict(base, id="%s-%d-%d-%d-%d-%d" % (base["id"], op, p, nth, w, len(bad)), rules=[dict(party=p, op=op, nth=nth, kind="xor", a=w, b=1 << rng.randrange(8))],
                                        tag=dict(mode="tamper", see=["wf", "val"], bad=p, op=op, to=to)))
                    for kind in ("random", "zero", "half", "replay"):
                        if kind != "replay" or nth:
                            bad.append(dict(base, id="%s-%d-%d-%d-%s-%d" % (base["id"], op, p, nth, kind, len(bad)), rules=[dict(party=p, op=op, nth=nth, kind=kind)],
                                            tag=dict(mode="tamper", see=["wf", "val"], bad=p, op=op, to=to)))
    br = c.run(vh, bad, "changed commitments and contributions", limit=60)
    by.update({x["id"]: x for x in bad})
    for r in br:
        if r["fired"]:
            case(dict(id=r["id"], net=[[], [], []], out=r["out"], ev=r["ev"], m=[], tag=dict(r["tag"], kind="caught", ops=[], proof=False)))
    judge_cases(c, cases, src, "SetupTrace", "set-ups, coins, keys, changed contributions")
    return c.end()


def c21():
    import cli
    c = Check("C21")
    bins = cli.build()
    from concurrent.futures import ThreadPoolExecutor

    def bitsof(n, rng):
        """A byte string with ones at n random places."""
        b = bytearray(cli.BITS_N // 8)
        for j in rng.sample(range(cli.BITS_N), n):
            b[j >> 3] |= 1 << (j & 7)
        return bytes(b)

    def entry(q, kind, rng):
        """An entry of this kind for the query q."""
        code, mask = q
        ones = [j for j in range(cli.BITS_N) if mask[j >> 3] >> (j & 7) & 1]
        if kind == "few":
            keep = rng.sample(ones, 6000)
        elif kind == "big":
            keep = rng.sample(ones, len(ones) - 200)
        elif kind == "short":
            keep = rng.sample(ones, 8959)
        elif kind == "enough":
            keep = rng.sample(ones, 8960)
        else:
            keep = rng.sample(ones, rng.randrange(9200, len(ones) - 200))
        n = len(keep)
        dist = {"near": n * 34 // 100 - 1, "far": n * 34 // 100, "same": 0, "opposite": n}.get(kind, rng.randrange(n * 36 // 100, n // 2))
        m, cd = bytearray(cli.BITS_N // 8), bytearray(code)
        for j in keep:
            m[j >> 3] |= 1 << (j & 7)
        for j in rng.sample(keep, dist):
            cd[j >> 3] ^= 1 << (j & 7)
        # outside of the common mask nothing counts
        for j in range(cli.BITS_N):
            if not mask[j >> 3] >> (j & 7) & 1:
                if rng.random() < 0.5:
                    m[j >> 3] |= 1 << (j & 7)
            if not m[j >> 3] >> (j & 7) & 1 and rng.random() < 0.5:
                cd[j >> 3] ^= 1 << (j & 7)
        return bytes(cd), bytes(m)

    jobs = []
    for proto in ("aby3", "swift3", "spdzwise"):
        for g in range(size(1, 5)):
            def gen(p, rng, proto=proto, g=g):
                a, b = str(rng.getrandbits(63)), str(rng.getrandbits(20))
                n = rng.choice([1, 2, 3])
                yield p.create(proto, 2, a)
                yield p.create(proto, n)
                yield p.refuse(rng.choice(["", "aby", "spdz", "swift3 "]))
                yield p.put()
                yield p.create(proto, 2, a)
                yield p.create(proto, 1, b, proto.upper() if g % 2 == 0 else proto.capitalize())
                yield p.create(proto, 0)
                yield p.put()
                yield p.create(proto, 1, str(int(b) ^ (1 << rng.choice([32, 40, 48, 56, 62, 63]))))
                yield p.create(proto, 2, str(int(a) ^ (1 << rng.randrange(1, 32))))
                yield p.create(proto, 2, a)
                yield p.refuse("plain")
            jobs.append(("gen-%s-%d" % (proto, g), gen))
    for g in range(size(2, 10)):
        def plain(p, rng):
            yield p.create("plain", rng.choice([2, 3, 5]))
            yield p.find(False)
            yield p.find(True)
            yield p.create("plain", 1)
            yield p.find(rng.random() < 0.5)
            q = p.iris(rng.getrandbits(40))
            for kinds in (["big", "big", "few"], ["few", "big"], ["big", "big"], []):
                yield p.put("plain", [entry(q, k, rng) for k in kinds], 0, rng)
                yield p.find(False)
                yield p.find(True)
        jobs.append(("plain-%d" % g, plain))
    for prog in ("aby3", "aby3_mal", "spdzwise"):
        proto = "spdzwise" if prog == "spdzwise" else "aby3"
        for g in range(size(3, 20)):
            def match(p, rng, prog=prog, proto=proto, g=g):
                if g == 0:
                    yield p.create(proto, 3, "7")
                    for m, seed, chunk, runs in ((True, 3, 1024, 2), (False, 7, 2, 1), (False, 8, 1, 2), (True, 9, 1, 1)):
                        yield p.query(prog, seed, m, chunk, runs)
                    yield p.create(proto, 1, "8")
                    yield p.query(prog, 8, False, 3)
                    yield p.query(prog, 4, True, 4)
                    yield p.put()
                    yield p.create(proto, 0)
                    yield p.query(prog, 8, False)
                    return
                for r in range(3):
                    seed = rng.getrandbits(50)
                    q = p.iris(seed)
                    n = rng.randrange(1, 6)
                    kinds = [rng.choice(["far", "any", "opposite", "enough"]) for _ in range(n)]
                    how = (g + r) % 4
                    if how == 0:
                        kinds[-1] = "near"
                    elif how == 1:
                        kinds[rng.randrange(n)] = rng.choice(["near", "same"])
                    elif how == 2:
                        kinds[rng.randrange(n)] = "short"
                    yield p.put(proto, [entry(q, k, rng) for k in kinds], 1, rng)
                    yield p.query(prog, seed, False, rng.choice([1, 2, 3, n, 1024]), rng.choice([1, 1, 2]))
                if prog == "spdzwise":
                    yield p.put(proto, [entry(q, "near", rng)], rng.choice([0, 2]), rng)
                    yield p.query(prog, seed)
            jobs.append(("match-%s-%d" % (prog, g), match))

    def work(job):
        name, f = job
        p = cli.Place(bins, os.path.join(c.d, name))
        ev = list(f(p, rng_for("C21", name)))
        shutil.rmtree(p.d, ignore_errors=True)
        return dict(id="C21-" + name, ev=ev)

    t = time.time()
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(work, jobs))
    log("%d sessions of the command-line tools, %d runs in %.1f s" % (len(res), sum(len(r["ev"]) for r in res), time.time() - t))
    slim = []
    for r in res:
        slim.append(dict(id=r["id"], ev=[dict({k: v for k, v in e.items() if k not in ("rows", "q")}, op=e["a"], entries=len(e.get("rows", []))) for e in r["ev"]], tag={}))
    c.judged(res, slim, "generators and match programs", module="SampleDb")
    c.cov["program_runs"] = sum(len(r["ev"]) for r in res)
    return c.end()


_ORACLE = "The TLA+ specification (spec/MpcSpec.tla, spec/MpcTrace.tla) is the oracle: TLC replays every recorded session of the real code against it. "
MANIFEST = {
    "C10": ("TLA+ trace validation of sessions with damaged, missing and arbitrary messages",
            _ORACLE + "Every message of the base sessions is damaged in several ways or is the last its sender gives; parties run on a simulated network that detects deadlock. Bounded by the base sessions and the kinds of damage."),
    "C11": ("TLA+ trace validation of SPDZ-wise sessions: MAC equation in the specification", _ORACLE + "All components of all three parties' shares are recorded after every operation and the MAC equation is evaluated exactly in TLA+ over the 64/128-bit rings. Bounded by the explored programs."),
    "C12": ("Exhaustive TLC model of the triple stock; announced gate counts of real sessions trace-validated",
            "spec/Triples.tla (announce, use, verify, implicit announcement, any order, small numbers) is checked exhaustively, with two wrong variants that TLC must refute; its histories are run on the real code with real gate counts, and the volume of triples made is compared with what verifications consume."),
    "C13": ("TLA+ trace validation of honest sessions with verifications everywhere", _ORACLE + "Every kind of gate in many numbers between verifications, degenerate values, empty verifications, generated programs. Bounded by those programs."),
    "C21": ("TLA+ specification of the database and of the command-line programs; recorded runs of the real programs validated against it",
            "spec/SampleDb.tla: the state is what the database file holds; TLC reconstructs every share and MAC of every generated entry exactly, compares runs by seed, and computes the answers of the match programs. Generators of all four kinds; find_match; the three parties' programs aby3, aby3_mal and spdzwise over loopback with entries exactly at the thresholds. Swift3's match program needs over 400 s for one answer and is left out; its shares are validated."),
    "C20": ("TLA+ validation of recorded encodings and conversions against exact ring arithmetic",
            "spec/Codec.tla states what every encoding and conversion gives; TLC checks every result recorded from the real code. All of u8 and i8, edge cases and random values of the wider rings; typed messages in fragments of many sizes."),
    "C14": ("Exhaustive TLC model of commit and reveal; recorded set-ups and coins validated against the specification",
            "spec/Setup.tla (one cheating party, all schedules; two broken variants refuted) is explored exhaustively; spec/SetupTrace.tla recomputes commitments and judges order, refusal of every kind of changed commitment or contribution, and independence of keys in sessions under many schedules; agreement of keys is judged by the shares that later operations make."),
    "C16": ("Exhaustive TLC model of masking; repeated operations and sessions with one draw of randomness changed validated against the specification",
            "spec/Mask.tla counts views exhaustively (four broken variants refuted). In the real code the harness controls the parties' randomness: messages and shares of repeated operations must be unrelated and balanced bit by bit, and every message must change with some draw that its receiver cannot see. Bounded by operations, rings and statistical resolution (biases below 1/8 are not seen)."),
    "C15": ("TLA+ trace validation of sessions under adversarial schedules; their communication explored by TLC on bounded links",
            _ORACLE + "spec/Links.tla puts the recorded sends and receives on links that buffer eight messages: one order of all of them decides (steps never disable each other, which TLC checks), every order of short sessions. Sampled programs and schedules, also over the real network."),
    "C17": ("Exhaustive TLC model of a managed channel; sessions over the real network validated against the TLA+ network",
            "spec/ChannelQ.tla (queues, write task, transport, graceful end; three broken variants refuted) is explored exhaustively; spec/NetTrace.tla replays what the parties of real QUIC sessions on the loopback interface sent and received. Real schedules are sampled, not enumerated."),
    "C18": ("Exhaustive TLC model of establishing connections; real start-ups validated against the TLA+ network",
            "spec/Establish.tla (all list orders and schedules of three parties, four parties; two broken variants refuted) is explored exhaustively; real parties are started in every order with every list order, and refused configurations are tried. Real schedules are sampled."),
    "C19": ("TLA+ trace validation of refused calls", _ORACLE + "Each kind of meaningless argument for each protocol; bounded by that list."),
}


CHECKS = {k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r"c\d\d", k)}
