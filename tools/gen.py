"""Programs for the real code: TLC generates them from spec/Gen.tla, here the symbolic values are
made concrete for a protocol and a ring."""
import json, os
from vlib import *

PROFILES = {
    "share": dict(Ops=["input", "deal", "cat", "slice", "open", "open_many"], Lens=[1, 2, 3, 5], MaxLen=12),
    "arith": dict(Ops=["input", "deal", "add", "sub", "mul", "add_const", "sub_const", "mul_const", "slice", "open"],
                  Lens=[1, 2, 3], MaxLen=6),
    "linear": dict(Ops=["input", "deal", "add", "sub", "add_const", "sub_const", "mul_const", "slice", "open"],
                   Lens=[1, 2, 3], MaxLen=6),
    "dot": dict(Ops=["deal", "input", "dot", "dot_many", "cat", "slice", "add", "open_many"], Lens=[1, 2, 3, 7], MaxLen=16),
    "bool": dict(Ops=["deal", "input", "msb", "msb_many", "or", "xor", "reduce_or", "bcat", "bslice", "sub", "open_bit", "open_bit_many"],
                 Lens=[1, 2, 3, 5], MaxLen=20),
    "mixed": dict(Ops=["input", "deal", "add", "sub", "mul", "mul_const", "add_const", "dot", "dot_many", "cat", "slice", "msb_many",
                       "msb", "or", "reduce_or", "bcat", "open", "open_many", "open_bit", "open_bit_many", "verify"],
                  Lens=[1, 2, 3], MaxLen=12),
    "keys": dict(Ops=["newkey", "input", "deal", "add", "sub", "mul", "mul_const", "add_const", "sub_const", "dot", "dot_many", "cat", "slice", "open"],
                 Lens=[1, 2, 4], MaxLen=10),
}
_n = [0]


def programs(profile, num, depth, d, seed=None, ops=None):
    """num programs of `depth` operations, as lists of symbolic operations."""
    p = dict(PROFILES[profile])
    if ops:
        p["Ops"] = ops
    _n[0] += 1
    cfg = os.path.join(d, "gen%d.cfg" % _n[0])
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    with open(cfg, "w") as f:
        f.write("SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ops = %s\n Lens = {%s}\n Depth = %d\n Classes = %s\n MaxLen = %d\n"
                % (q(p["Ops"]), ", ".join(map(str, p["Lens"])), depth, q(["0", "1", "max", "msb", "mix", "r"]), p["MaxLen"]))
    r = tlc("Gen", cfg, d, workers=1, bigring=False, timeout=600,
            args=["-simulate", "num=%d" % num, "-depth", str(depth + 4), "-seed", str((SEED if seed is None else seed) * 7919 + _n[0])])
    got = [json.loads(v) for _, v in tla_strings(r.out, "PROGRAM")]
    # a behaviour that runs into a state in which no operation is enabled prints nothing
    if len(got) < num // 2:
        print(r.out[-3000:])
        raise ToolError("the generator made %d programs of %d" % (len(got), num))
    return got


def vals(val, k, rng):
    c, n = val["c"], val["n"]
    out = []
    for _ in range(n):
        out.append(concrete(rng.choice(CLASSES) if c == "mix" else c, k, rng))
    return "".join(out)


def and_bound(ops, k):
    """An upper bound on the AND gates of the operations, in whole words of 128."""
    n = 0
    for o in ops:
        if o["op"] == "msb":
            n += 128 * 2 * k * o["_n"]
        elif o["op"] == "msb_many":
            n += 128 * 2 * k * ((o["_n"] + 127) // 128)
        elif o["op"] in ("or", "reduce_or"):
            n += 2 * o["_n"] + 256
    return n and n + 512


def concretise(prog, proto, ring, key, precompute=True, q=False, finale=True):
    """The operations of a program for the harness. Registers are numbered as the program made them;
    arithmetic and bit registers are counted apart."""
    k = BITS[ring]
    rng, way = rng_for(key, proto, ring), rng_for("ways", key, proto, ring)
    ops, al, bl = [], [], []
    for o in prog:
        n = dict(op=o["op"], q=q)
        op = o["op"]
        if op == "verify" and not can_verify(proto, ring):
            continue
        x = o.get("x")
        for f in ("p", "c", "n"):
            if f in o:
                n[f] = o[f]
        for f in ("x", "y", "xs", "ys"):
            if f in o:
                n[f] = o[f]
        if "val" in o:
            n["v"] = vals(o["val"], k, rng)
        if op in ("add", "sub", "mul_const", "xor"):
            # the operators of the shares do the same as the protocol's methods
            n["w"] = way.choice([0, 0] + list(range(1, 7)))
            if op == "mul_const" and n["w"] >= 4 and way.random() < 0.6:
                n["v"] = "".join(hx(1 << way.randrange(k), k) for _ in range(o["val"]["n"]))
        L = None
        if op in ("input", "deal"):
            L = ("a", o["val"]["n"])
        elif op in ("add", "sub", "mul", "add_const", "sub_const", "mul_const"):
            L = ("a", al[x - 1])
        elif op == "dot":
            L = ("a", 1)
        elif op == "dot_many":
            L = ("a", len(o["xs"]))
        elif op == "cat":
            L = ("a", sum(al[i - 1] for i in o["xs"]))
        elif op == "slice":
            L = ("a", o["n"])
        elif op in ("msb", "msb_many"):
            L = ("b", al[x - 1])
        elif op in ("or", "xor"):
            L = ("b", bl[x - 1])
        elif op == "reduce_or":
            L = ("b", 1)
            n["_n"] = bl[x - 1]
        elif op == "bcat":
            L = ("b", sum(bl[i - 1] for i in o["xs"]))
        elif op == "bslice":
            L = ("b", o["n"])
        if L:
            (al if L[0] == "a" else bl).append(L[1])
            n["d"] = len(al) if L[0] == "a" else len(bl)
            n.setdefault("_n", L[1])
        if op in ("newkey", "precompute") and proto != "spdzwise":
            continue
        ops.append(n)
    # nothing that was computed is left unopened
    if finale:
        for i, _ in enumerate(al):
            ops.append(dict(op="open_many" if i % 2 else "open", x=i + 1))
        for i, _ in enumerate(bl):
            ops.append(dict(op="open_bit_many" if i % 2 else "open_bit", x=i + 1))
    pre = [dict(op="preprocess")]
    need = and_bound(ops, k)
    if proto == "spdzwise" and need and precompute:
        pre.append(dict(op="precompute", n=need))
    for o in ops:
        o.pop("_n", None)
    # a new key is chosen before the first value; a dealer needs to know it
    if proto == "spdzwise" and any(o["op"] == "deal" for o in ops):
        ops = [o for o in ops if o["op"] != "newkey"]
        pre.insert(1, dict(op="dealkey", v=hx(rng.getrandbits(128), 128 if k >= 64 else 64)))
    return pre + ops


def usable(prog, proto, ring):
    names = {o["op"] for o in prog}
    if not can_mul(proto, ring) and names & {"mul", "dot", "dot_many", "mdot", "msb", "msb_many", "or", "reduce_or"}:
        return False
    return True


def scenario(sid, proto, ring, ops, mode="honest", see=("wf", "val", "mac"), bad=0, **kw):
    return dict(id=sid, proto=proto, ring=ring, seed=kw.pop("seed", rng_for(sid).getrandbits(31)), ops=ops,
                tag=dict(mode=mode, see=list(see), bad=bad), **kw)


def families(prop, profile, num, depth, d, protos=PROTOS, rings=RINGS, see=("wf", "val", "mac"), **kw):
    """Programs of a profile, each run in some protocols and rings so that every combination gets
    `num` of them."""
    progs = programs(profile, num, depth, d)
    out = []
    for proto in protos:
        for ring in rings:
            for i, pr in enumerate(progs):
                if not usable(pr, proto, ring):
                    continue
                sid = "%s-%s-%s-%s-%d" % (prop, profile, proto, ring, i)
                out.append(scenario(sid, proto, ring, concretise(pr, proto, ring, (prop, profile, i)), see=see, **dict(kw)))
    return out
