"""Sessions with one deviating party: the messages of an honest recorded run tell where a message
can be changed; each change is a session of its own."""
from gen import *
import iris as ir

KINDS = [dict(kind="xor", a=0, b=1), dict(kind="xor", a=-1, b=128), dict(kind="xor", a=7, b=4), dict(kind="random"),
         dict(kind="zero"), dict(kind="xorall", b=255), dict(kind="half"), dict(kind="replay"), dict(kind="add", a=0, b=1, c=1)]


def record(vh, scens, d, c=None):
    """Honest runs of the scenarios, with the list of sends (op, nth in op, to, length) per party."""
    out = []
    res = run_harness(vh, [dict(s, record=True, rules=[]) for s in scens], d, name="rec", limit=120)
    for s, r in zip(scens, res):
        if r["out"] != ["done"] * 3:
            # an honest session that fails is for other checks to report
            log("honest session %s does not finish: %s" % (s["id"], r["out"]))
            out.append((s, None))
            continue
        sends = []
        for p in range(3):
            cnt, lst = {}, []
            for e in r["net"][p]:
                if e["t"] == "s":
                    n = cnt.get(e["o"], 0)
                    cnt[e["o"]] = n + 1
                    lst.append((e["o"], n, e["p"], e["l"]))
            sends.append(lst)
        out.append((s, sends))
    return out


def variants(s, sends, rng, budget, kinds=KINDS, parties=(0, 1, 2), elem=8, must=None):
    """Tampered copies of a scenario: every send of every party is equally likely to be hit, first
    of all each send once."""
    pts = [(p,) + x for p in parties for x in sends[p]]
    # strata: operation and position, so that long operations do not crowd out the rest
    rng.shuffle(pts)
    by = {}
    for pt in pts:
        by.setdefault((pt[0], pt[1]), []).append(pt)
    order, lists = [], list(by.values())
    while lists:
        for l in lists:
            order.append(l.pop())
        lists = [l for l in lists if l]
    out = []
    for i in range(budget):
        p, op, nth, to, ln = order[i % len(order)] if i < len(order) else rng.choice(order)
        k = dict(rng.choice(kinds))
        if k["kind"] == "xor":
            end = max(ln - 1, 0)
            k["a"] = rng.choice([0, end, rng.randrange(max(ln, 1)), 0, (k["a"] if k["a"] >= 0 else end)])
            k["b"] = rng.choice([1, 128, 1 << rng.randrange(8), 0x80])
        if k["kind"] == "add":
            k["b"] = min(elem, ln) or 1
            k["a"] = rng.choice([0, rng.randrange(max(1, ln // k["b"]))])
            k["c"] = rng.choice([1, 1 << 7, 1 << 15, 3])
        rules = [dict(party=p, op=op, nth=nth, **k)]
        extra = rng.random()
        if extra < 0.12:
            # the same change to everything the party sends in this operation
            rules = [dict(party=p, op=op, **k)]
        elif extra < 0.2:
            # the same change to the two copies of a broadcast
            rules = [dict(party=p, op=op, nth=n, **k) for n in (nth, nth + 1)]
        t = dict(s, id="%s-t%d" % (s["id"], i), rules=rules)
        t["tag"] = dict(s["tag"], mode="tamper", bad=p, at="%s#%d/%d to %d, %d bytes: %s" % (
            s["ops"][op]["op"] if op < len(s["ops"]) else "finish", op, nth, to, ln, k["kind"]))
        out.append(t)
    return out


def local(s, rng, i):
    """A party that changes its own share of a register and goes on as if nothing had happened."""
    t = dict(s, id="%s-c%d" % (s["id"], i))
    ops = list(s["ops"])
    cands = []
    for j, o in enumerate(ops):
        if o["op"] in ("input", "deal", "add", "sub", "mul", "dot", "dot_many", "mul_const", "cat", "slice"):
            cands.append((j, "corrupt", o["d"]))
        if o["op"] in ("msb", "msb_many", "or", "reduce_or", "bcat"):
            cands.append((j, "bcorrupt", o["d"]))
    j, kind, reg = rng.choice(cands)
    p = rng.randrange(3)
    k = BITS[s["ring"]]
    w = {"spdzwise": 128 if k >= 64 else 64}.get(s["proto"], k)
    delta = rng.choice([1, 1 << (k - 1), rng.getrandbits(k) | 1]) % (1 << w)
    comps = {"spdzwise": 4 if kind == "corrupt" else 2, "swift3": 3}.get(s["proto"], 2)
    ops.insert(j + 1, dict(op=kind, p=p, x=reg, c=rng.randrange(comps), v=hx(delta, w), n=rng.randrange(8)))
    t["ops"] = ops
    t["tag"] = dict(s["tag"], mode="tamper", bad=p, at="own share of %d" % reg)
    return t


def bases(prop, proto, rings, extra_verify):
    """Small honest sessions, one per kind of operation, that open everything at the end."""
    out = []
    for ring in rings:
        k = BITS[ring]
        rng = rng_for(prop, "bases", proto, ring)
        v = lambda n: "".join(hx(rng.getrandbits(k), k) for _ in range(n))
        ver = [dict(op="verify")] if extra_verify and can_verify(proto, ring) else []
        pre = lambda n=0: [dict(op="preprocess")] + ([dict(op="precompute", n=n)] if n and proto == "spdzwise" else [])
        key = [dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64))] if proto == "spdzwise" else []
        new = [dict(op="newkey")] if proto == "spdzwise" else []  # without a key there is nothing to check against
        inp = lambda: new + [dict(op="input", p=p, v=v(2), d=p + 1) for p in range(3)]
        deal = lambda: key + [dict(op="deal", v=v(n), d=i + 1) for i, n in enumerate([3, 3, 1, 1])]

        def add(name, ops):
            out.append(scenario("%s-%s-%s-%s" % (prop, proto, ring, name), proto, ring, ops))
        o = lambda r: dict(op="open", x=r)
        om = lambda r: dict(op="open_many", x=r)
        ob = lambda r: dict(op="open_bit", x=r)
        obm = lambda r: dict(op="open_bit_many", x=r)
        add("input", pre() + inp() + ver + [o(1), om(2), o(3)])
        add("open", pre() + deal() + ver + [o(1), om(1), om(2), o(3)])
        if can_mul(proto, ring):
            add("mul", pre() + inp() + [dict(op="mul", x=1, y=2, d=4), dict(op="mul", x=4, y=3, d=5)] + ver + [o(4), om(5)])
            add("dot", pre() + deal() + [dict(op="dot", x=1, y=2, d=5), dict(op="dot_many", xs=[1, 2, 3], ys=[2, 1, 4], d=6)] + ver + [o(5), om(6)])
            g = 3 * 256 * k + 2048
            add("msb", pre(g) + deal() + [dict(op="msb", x=3, d=1), dict(op="msb_many", x=1, d=2)] + ver + [ob(1), obm(2)])
            add("or", pre(g) + deal() + [dict(op="msb_many", x=1, d=1), dict(op="msb_many", x=2, d=2), dict(op="or", x=1, y=2, d=3),
                                         dict(op="reduce_or", x=3, c=2, d=4)] + ver + [obm(3), ob(4), obm(1)])
        # programs from the specification
    return out


def attacks(d):
    """Errors in four products that some broken way of checking lets through whatever the challenge."""
    r = tlc("Batch", "BatchGen.cfg", d, bigring=False)
    out = [json.loads(v) for v in sorted({v for _, v in tla_strings(r.out, "ATTACK")})]
    if not r.ok or len(out) < 50:
        print(r.out[-3000:])
        raise ToolError("Batch")
    return [(a["e"], a["f"]) for a in out]


def products(prop, proto, rings, verify):
    """Sessions that make several products which are checked together."""
    out = []
    for ring in rings:
        k = BITS[ring]
        rng = rng_for(prop, "products", proto, ring)
        v = lambda n: "".join(hx(rng.getrandbits(k) | 1, k) for _ in range(n))
        key = [dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64))] if proto == "spdzwise" else []
        pre = [dict(op="preprocess")] + key + [dict(op="deal", v=v(2), d=1), dict(op="deal", v=v(2), d=2)]
        ver = [dict(op="verify")] if verify and can_verify(proto, ring) else []
        for n in (2, 4) + ((16,) if proto == "swift3" else ()):
            out.append(scenario("%s-%s-%s-products%d" % (prop, proto, ring, n), proto, ring, pre + [dict(op="dot_many", xs=([1, 2] * n)[:n], ys=([2, 2, 1, 1] * n)[:n], d=3)] + ver + [dict(op="open_many", x=3)]))
        # products made one after the other that are checked together
        for n in (2, 1):
            pre = pre[:-2] + [dict(op="deal", v=v(n), d=1), dict(op="deal", v=v(n), d=2)]
            out.append(scenario("%s-%s-%s-muls%d" % (prop, proto, ring, n), proto, ring, pre + [dict(op="mul", x=1, y=2, d=3), dict(op="mul", x=2, y=2, d=4), dict(op="cat", xs=[3, 4], d=5)] + ver + [dict(op="open_many", x=5)]))
        # a product that is not opened but compared with zero, and the sign opened
        if can_mul(proto, ring):
            pre = pre[:-2] + [dict(op="deal", v=v(1), d=1), dict(op="deal", v=v(1), d=2)]
            big = pre[:1] + ([dict(op="precompute", n=3 * 256 * k + 2048)] if proto == "spdzwise" else []) + pre[1:]
            made = [dict(op="mul", x=1, y=2, d=3), dict(op="dot", x=2, y=2, d=4), dict(op="dot_many", xs=[1], ys=[1], d=5), dict(op="cat", xs=[3, 4, 5], d=5)]
            out.append(scenario("%s-%s-%s-signs" % (prop, proto, ring), proto, ring, big + made + [dict(op="msb_many", x=5, d=6)] + ver + [dict(op="open_bit_many", x=6)]))
            # or used as the second factor of another product
            out.append(scenario("%s-%s-%s-chain" % (prop, proto, ring), proto, ring, pre + made + [dict(op="cat", xs=[1, 1, 1], d=6), dict(op="mul", x=6, y=5, d=7)] + ver + [dict(op="open_many", x=7)]))
        if proto != "spdzwise":
            bits = [dict(op="bdeal", v="".join(rng.choice("01") for _ in range(4)), d=i) for i in (1, 2)]
            out.append(scenario("%s-%s-%s-ors" % (prop, proto, ring), proto, ring, [dict(op="preprocess")] + bits + [dict(op="or", x=1, y=2, d=3)] + ver + [dict(op="open_bit_many", x=3)]))
    return out


def concerted(s, sends, pats, rng, budget, pairs=True):
    """One party adds errors to several of the products it takes part in, at once, and goes on with
    shares that agree with what it sent."""
    k = BITS[s["ring"]]
    prods = [j for j, o in enumerate(s["ops"]) if o["op"] in ("dot_many", "dot", "mul", "or")]
    at = next((j for j, o in enumerate(s["ops"]) if o["op"] == "cat"), prods[-1]) + 1
    prods = [j for j in prods if j < at]
    reg = 5 if len(prods) > 1 else 3
    signs = s["id"].endswith("-signs")
    bits = s["ops"][prods[0]]["op"] == "or"
    width = {"spdzwise": 128 if k >= 64 else 64}.get(s["proto"], k)
    comps = {"spdzwise": 4, "swift3": 3}.get(s["proto"], 2)
    if bits:
        comps = {"swift3": 3}.get(s["proto"], 2)
    sp = []  # (party, messages hit, width of an element, elements in a message, messages per product)
    for p in range(3):
        by = {}
        for op, nth, to, ln in sends[p]:
            if op in prods and ln <= 128:
                by.setdefault(op, []).append((nth, to, ln))
        if not by:
            continue
        for w in ([1, 8] if bits else [k // 8, 2 * k // 8, 4 * k // 8, 8, 16]):
            if bits:
                # a gate after the other: the same message of each
                per = len([1 for x in sends[p] if x[0] == prods[0]]) // 4
                c = [(nth,) for nth, to, ln in by[prods[0]][:per] if ln == w or (w > 1 and ln == 2 * w)]
            elif len(prods) == 1:
                c = [(nth,) for nth, to, ln in by[prods[0]] if ln % w == 0 and 2 <= ln // w <= 32]
            else:
                # a message per product: the same message of each
                c = [(nth,) for nth, to, ln in by[prods[0]] if ln == w or (ln % w == 0 and ln // w <= 4)]
            c += [(a[0], b[0]) for a in c for b in c if a[0] < b[0]]
            sp += [(p, x, w) for x in c]
    sp = sorted(set(sp))
    if not sp:
        return []
    rng.shuffle(sp)
    out = []
    for i in range(budget):
        p, msgs, w = sp[i % len(sp)]
        e, f = rng.choice(pats)
        n = 4 if bits else int(s["id"].split("products")[1]) if "products" in s["id"] else 2
        if len(prods) > 1:
            n = len(prods) * (2 if len(s["ops"][prods[0] - 1]["v"]) > k // 4 else 1)
        if pairs and i % 3:
            # opposite errors in two products
            a, b = sorted(rng.sample(range(n), 2))
            e, f = [0] * max(4, n), 0
            e[a], e[b] = 1, -1
        delta = rng.choice([1, 1, 1 << (k - 1) if not bits else 1, 3])
        if signs:
            delta = 1 << (k - 1)
        rules, after = [], []
        each = n // len(prods)
        for m in msgs:
            for j in range(n):
                if not e[j % len(e)]:
                    continue
                op, elem, nth = prods[0], j, m
                if len(prods) > 1:
                    # the two elements of a register are made one after the other
                    op = prods[j // each]
                    per = len([1 for x in sends[p] if x[0] == op]) // each
                    elem, nth = 0, m % max(per, 1) + (j % each) * per
                if bits:
                    per = len([1 for x in sends[p] if x[0] == op]) // 4
                    elem, nth = 0, m % max(per, 1) + j * per
                if bits and w == 1:
                    rules.append(dict(party=p, op=op, nth=nth, kind="xor", a=elem, b=1))
                else:
                    rules.append(dict(party=p, op=op, nth=nth, kind="add" if e[j % len(e)] > 0 else "sub", a=elem, b=w, c=delta))
                    if f:
                        rules.append(dict(rules[-1], a=elem + (n if len(prods) == 1 and not bits else 1)))
        # what is sent to the next party is the first component of a share (or of the value and of its MAC)
        cs = rng.choice([(0,), (0,), (0, comps // 2), (rng.randrange(comps),), ()])
        for c in cs:
            for j in range(n):
                if e[j % len(e)]:
                    if bits:
                        after.append(dict(op="bcorrupt", p=p, x=reg, c=c, n=j))
                    else:
                        after.append(dict(op="corrupt", p=p, x=reg, c=c, n=j, v=hx((e[j % len(e)] * delta) % (1 << width), width)))
        t = dict(s, id="%s-%s%d" % (s["id"], "x" if pairs else "o", i), rules=rules, ops=s["ops"][:at] + after + s["ops"][at:])
        t["tag"] = dict(s["tag"], mode="tamper", bad=p, at="errors %s in concert, messages %s, components %s" % (e, msgs, cs))
        out.append(t)
    return out


def cutchoose(vh, prop, ring, budget, d):
    """A party places wrong bits in the triples, in the words they are checked with and in the gates that use
    them, after the attack patterns of CutChoose.tla: a bit 0 and a bit 1 of its words are bit 0 and all other
    bits of words of the real code, its word 0 is the first word, word 1 all others, word 2 the one that is opened."""
    r = tlc("CutChoose", "CutChooseGen.cfg", d, bigring=False)
    pats = [json.loads(v) for v in sorted({v for _, v in tla_strings(r.out, "ATTACK")})]
    if not r.ok or len(pats) < 10:
        print(r.out[-3000:])
        raise ToolError("CutChoose")
    k = BITS[ring]
    rng = rng_for(prop, "cutchoose", ring)
    bits = lambda: "".join(rng.choice("01") for _ in range(128))
    ops = [dict(op="preprocess"), dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64)), dict(op="precompute", n=128),
           dict(op="bdeal", v=bits(), d=1), dict(op="bdeal", v=bits(), d=2), dict(op="or", x=1, y=2, d=3), dict(op="verify"), dict(op="open_bit_many", x=3)]
    base = scenario("%s-%s-cutchoose" % (prop, ring), "spdzwise", ring, ops)
    out = []
    for b, sends in record(vh, [base], d):
        if sends is None:
            continue
        for i in range(budget):
            e, p = pats[i // 3 % len(pats)], i % 3
            big = [(nth, ln // 16) for op, nth, to, ln in sends[p] if op == 2 and to == (p + 1) % 3 and ln % 32 == 16 and ln > 4096]
            gates = [nth for op, nth, to, ln in sends[p] if op == 5 and to == (p + 1) % 3]
            if not big or len(gates) != 128:
                log("triples of %s are not made as expected" % b["id"])
                break
            nth, n = big[0][0], (big[0][1] - 1) // 2
            words = {0: (0, 1), 1: (1, n), 2: (n, n + 1), 3: (n + 1, 2 * n), 4: (2 * n, 2 * n + 1)}
            wrong = {}
            for v in e["x"]:
                wrong[v // 2] = wrong.get(v // 2, 0) | 1 << v % 2
            for v in e["y"]:
                wrong[2 + v // 2] = wrong.get(2 + v // 2, 0) | 1 << v % 2
            rules = [dict(party=p, op=2, nth=nth, kind="words", a=words[w][0], b=words[w][1], c=m) for w, m in wrong.items()]
            js = ([127] if 0 in e["g"] else []) + (list(range(127)) if 1 in e["g"] else [])
            rules += [dict(party=p, op=5, nth=gates[j], kind="xor", a=0, b=1) for j in js]
            t = dict(b, id="%s-%d" % (b["id"], i), rules=rules, ops=ops[:6] + [dict(op="bcorrupt", p=p, x=3, c=0, n=j) for j in js] + ops[6:])
            t["tag"] = dict(b["tag"], mode="tamper", bad=p, at="wrong triples: %s" % json.dumps(e))
            out.append(t)
    return out


def iris_base(prop, proto, ring, i, q):
    rng = rng_for(prop, proto, ring, i)
    return ir.session("%s-%s-%s-iris%d" % (prop, proto, ring, i), proto, ring, q, (prop, proto, ring, i), per_kind=2)


def imitations(vh, scens, d):
    """The cheater of a session goes on: where the session ends with parties sending one another different
    digests, it sends the digest of one of the others instead of its own (HashCompare.tla)."""
    out = []
    res = run_harness(vh, [dict(s, record=True, data=True) for s in scens], d, name="imi", limit=120)
    for s, r in zip(scens, res):
        bad = s["tag"]["bad"]
        last = []
        for p in range(3):
            cnt, by = {}, []
            for e in r["net"][p]:
                if e["t"] == "s":
                    n = cnt.get(e["o"], 0)
                    cnt[e["o"]] = n + 1
                    by.append((e["o"], n, e["p"], e.get("x", "")))
            # the last digest it sent to both of the others
            pairs = [(a, b) for a, b in zip(by, by[1:]) if a[0] == b[0] and a[3] == b[3] and a[2] != b[2] and len(a[3]) in (64, 128)]
            last.append(pairs[-1] if pairs else None)
        if None in last or len({x[0][0] for x in last}) != 1 or len({x[0][3] for x in last}) == 1:
            continue
        n, q = (bad + 1) % 3, (bad + 2) % 3
        h = [x[0][3] for x in last]
        for name, to_n, to_q in (("next's digest", h[n], h[n]), ("previous party's digest", h[q], h[q]), ("their own digests", h[n], h[q])):
            op = last[bad][0][0]
            more = [dict(party=bad, op=op, nth=e[1], kind="set", x=to_n if e[2] == n else to_q) for e in last[bad]]
            t = dict(s, id="%s-%s" % (s["id"], name[:2]), rules=s.get("rules", []) + more)
            t["tag"] = dict(s["tag"], at=s["tag"]["at"] + ", then sends " + name)
            out.append(t)
    return out
