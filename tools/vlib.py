"""What the checks share: building the harness from /repo, running TLC, judging recorded sessions
against the specification, known findings, evidence."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TLAJ = "/opt/veriftools/tla/tla2tools.jar"
TLAC = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, timeout=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=out or subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd)[:300])
    return p.returncode, p.stdout or ""


# ---------------------------------------------------------------------------------------------
# the harness

def target_dir():
    return os.environ.get("VERIF_TARGET", os.path.join(BUILD, "target"))


def harness(features):
    """Builds the harness with these features from /repo's working tree; returns the program."""
    os.makedirs(BUILD, exist_ok=True)
    env = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true",
           "CARGO_TARGET_DIR": target_dir()}
    t = time.time()
    rc, out = sh(["cargo", "build", "--offline", "--no-default-features", "--features", ",".join(features)],
                 env=env, timeout=800, cwd=os.path.join(ROOT, "harness"))
    if rc != 0:
        print(out[-6000:])
        raise ToolError("the harness does not build against /repo")
    log("harness built (%s) in %.0f s" % (",".join(features), time.time() - t))
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "vh")


def wdir(prop):
    d = os.path.join(BUILD, "run", "%s-%s" % (prop, TIER))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_harness(vh, scens, d, name="s", threads=8, limit=60, sub="run"):
    """Runs the scenarios on the real code; a process that dies is narrowed down to the scenario."""
    results = [None] * len(scens)
    todo = list(range(len(scens)))
    alone = False
    rounds = 0
    while todo:
        rounds += 1
        batch = [todo[0]] if alone else todo
        inp, outp = os.path.join(d, name + ".in"), os.path.join(d, name + ".out")
        with open(inp, "w") as f:
            for i in batch:
                f.write(json.dumps(scens[i]) + "\n")
        rc, out = sh([vh, sub, inp, outp], env={"VH_THREADS": str(1 if alone else threads), "VH_LIMIT": str(limit)},
                     timeout=limit * 4 + 3000)
        if rc == 3:
            print(out[-3000:])
            raise ToolError("harness error")
        done = set()
        if os.path.exists(outp):
            for l in open(outp, errors="replace"):
                try:
                    i, r = json.loads(l)
                except ValueError:
                    continue
                results[batch[i]] = r
                done.add(batch[i])
        todo = [i for i in todo if i not in done]
        if rc != 0:
            log("harness process ended with %d; %d sessions left" % (rc, len(todo)))
            if alone and todo and batch[0] == todo[0]:
                i = todo.pop(0)
                results[i] = crashed(scens[i])
            alone = True
            if rounds > 60:
                for i in todo:
                    results[i] = crashed(scens[i])
                todo = []
        elif todo:
            raise ToolError("harness lost sessions")
    return results


def crashed(sc):
    none = [{"k": "none"}] * 3
    base = dict(op="", p=0, x=0, y=0, d=0, n=0, c=0, v="", xs=[], ys=[], ms=[], q=False, f=False)
    return dict(id=sc["id"], proto=sc.get("proto", ""), ring=sc.get("ring", ""), k=8, sk=8,
                ev=[dict(base, **o, r=none) for o in sc.get("ops", [])], tail=none, out=["abort"] * 3,
                deadlock=False, stuck=[], fired=0, left=[], tag=sc.get("tag", {}))


# ---------------------------------------------------------------------------------------------
# TLC

_override = None


def override():
    """Compiles the Java overrides of modules BigRing and Hash; returns the directory for the class path."""
    global _override
    if _override is None:
        d = os.path.join(BUILD, "java")
        os.makedirs(d, exist_ok=True)
        rc, out = sh(["javac", "-cp", TLAJ, "-d", d] + [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))], timeout=200)
        if rc != 0:
            print(out)
            raise ToolError("javac")
        _override = d
    return _override


class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
            re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.violated = rc in (10, 11, 12, 13)  # assumption, deadlock, safety, liveness
        self.ok = rc == 0


def tlc(module, cfg, d, env=None, workers=8, args=(), timeout=800, heap="10g", bigring=True, coverage=False):
    """Runs TLC on spec/<module>.tla with configuration spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=d)
    cp = ":".join([TLAJ, TLAC] + ([override()] if bigring else []))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    t = time.time()
    rc, out = sh(cmd, env=env, timeout=timeout, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, out, time.time() - t)


def model(name, cfg, d, expect_violation=False, **kw):
    """Exhaustive check of a model; a violation of the model itself is a mistake in the framework,
    unless the model is one that is meant to be violated (a deliberately broken design)."""
    r = tlc(name, cfg, d, **kw)
    if expect_violation:
        if not r.violated:
            print(r.out[-4000:])
            raise ToolError("%s/%s: the broken variant is accepted" % (name, cfg))
    elif not r.ok:
        print(r.out[-6000:])
        raise ToolError("%s/%s: TLC ended with %d" % (name, cfg, r.rc))
    log("model %s (%s): %d states, %.0f s%s" % (name, cfg, r.distinct, r.wall, " (violated, as it should be)" if expect_violation else ""))
    return r


def tla_strings(out, mark):
    """The values printed by PrintT(<<mark, id, value>>), which TLC may break over lines."""
    res = []
    pat = re.compile(r'<<\s*"' + mark + r'",\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
    for m in pat.finditer(out):
        res.append((unq(m.group(1)), unq(m.group(2))))
    return res


def unq(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


class Judged:
    def __init__(self):
        self.verdicts, self.states, self.generated = {}, 0, 0


def judge(results, d, module="MpcTrace", batch_bytes=60_000_000, name="t", cfg=None):
    """Checks recorded sessions against the specification; returns id -> "ok" or the complaint."""
    j = Judged()
    batches, cur, size = [], [], 0
    for r in results:
        l = json.dumps({k: v for k, v in r.items() if k != "net" or module != "MpcTrace"})
        if cur and size + len(l) > batch_bytes:
            batches.append(cur)
            cur, size = [], 0
        cur.append((r["id"], l))
        size += len(l)
    if cur:
        batches.append(cur)
    for n, b in enumerate(batches):
        f = os.path.join(d, "%s%d.ndjson" % (name, n))
        with open(f, "w") as h:
            for _, l in b:
                h.write(l + "\n")
        r = tlc(module, cfg or module + ".cfg", d, env={"TRACE": f}, heap="16g")
        if not r.ok:
            print(r.out[-5000:])
            raise ToolError("trace validation: TLC ended with %d" % r.rc)
        got = dict(tla_strings(r.out, "VERDICT"))
        missing = [i for i, _ in b if i not in got]
        if missing:
            print(r.out[-3000:])
            raise ToolError("no verdict for " + ", ".join(missing[:5]))
        j.verdicts.update(got)
        j.states += r.distinct
        j.generated += r.generated
        log("trace validation against %s: %d sessions, %d states, %.0f s" % (module, len(b), r.distinct, r.wall))
        os.remove(f)
    return j


# ---------------------------------------------------------------------------------------------
# verdicts

def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    """Collects what a check explored and found, and ends it."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.d = wdir(prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.cov, self.assume = [], [], {}, []
        self.seen_known = set()

    def add_model(self, r, label):
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", []).append({"model": label, "distinct_states": r.distinct, "states_generated": r.generated})

    def run(self, vh, scens, label, limit=60):
        """Runs scenarios on the code."""
        ids = set()
        for s in scens:
            if s["id"] in ids:
                raise ToolError("duplicate scenario id " + s["id"])
            ids.add(s["id"])
        t = time.time()
        res = run_harness(vh, scens, self.d, limit=limit)
        log("%s: %d sessions of the real code in %.1f s" % (label, len(scens), time.time() - t))
        return res

    def judged(self, res, scens, label, module="MpcTrace"):
        """Judges what was recorded."""
        j = judge(res, self.d, module=module)
        self.states += j.states
        self.transitions += j.generated
        self.traces += len(res)
        self.cov.setdefault("trace_families", []).append({"family": label, "sessions": len(res)})
        by = {s["id"]: s for s in scens}
        for r in res:
            v = j.verdicts[r["id"]]
            if v != "ok":
                self.violation(by.get(r["id"], r), v)
        if res and len(self.samples) < 6:
            r = max(res[:50], key=lambda x: len(x.get("ev", [])))
            self.samples.append({"family": label, "id": r["id"], "protocol": r.get("proto"), "ring": r.get("ring"),
                                 "ops": [e.get("op", e.get("a")) for e in r.get("ev", [])][:40], "ended": r.get("out")})
        return j

    def sessions(self, vh, scens, label, module="MpcTrace", limit=60):
        """Runs scenarios on the code and judges them; returns the results."""
        res = self.run(vh, scens, label, limit)
        self.judged(res, scens, label, module)
        return res

    def violation(self, what, why):
        """what: the failing case (scenario or history); why: the complaint."""
        text = "%s: %s" % (what.get("id", "?") if isinstance(what, dict) else "?", why)
        for pat, desc in known_findings(self.prop):
            if re.search(pat, text):
                if pat not in self.seen_known:
                    self.seen_known.add(pat)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, desc), flush=True)
                return
        self.viol.append((what, why))

    def end(self):
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(rd, f))
        groups = {}
        for what, why in self.viol:
            groups.setdefault(re.sub(r"[0-9a-f]{6,}|\d+", "#", why)[:80], []).append((what, why))
        n = 0
        for g in sorted(groups, key=lambda g: -len(groups[g])):
            if n >= 8:
                break
            what, why = min(groups[g], key=lambda w: len(json.dumps(w[0])))
            p = os.path.join(rd, "%s-%d.json" % (self.prop, n))
            json.dump({"property": self.prop, "complaint": why, "case": what, "occurrences": len(groups[g])}, open(p, "w"))
            ident = what.get("id", "") if isinstance(what, dict) else ""
            print("VIOLATION property=%s replay=%s  # %s: %s (%d like it)" % (self.prop, p, ident, why[:300], len(groups[g])), flush=True)
            n += 1
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "samples": self.samples[:8] or ["none"]}, **self.cov),
              "assumptions": self.assume, "wall_s": round(time.time() - T0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.d, ignore_errors=True)
        log("%s %s: %d sessions validated, %d states, %d violations" % (self.prop, TIER, self.traces, self.states, len(self.viol)))
        return 1 if self.viol else 0


# ---------------------------------------------------------------------------------------------
# values

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
for _r in list(BITS):
    BITS["i" + _r[1:]] = BITS[_r]
RINGS_U = ["u8", "u16", "u32", "u64", "u128"]
RINGS_I = ["i8", "i16", "i32", "i64", "i128"]
RINGS = RINGS_U + RINGS_I
PROTOS = ["aby3", "malaby3", "spdzwise", "swift3"]


def hx(v, k):
    return "%0*x" % ((k + 3) // 4, v % (1 << k))


CLASSES = ["0", "1", "max", "msb", "msbm1", "msbp1", "alt", "r"]


def concrete(cls, k, rng):
    """An element of the ring modulo 2^k of the symbolic class."""
    return hx({"0": 0, "1": 1, "2": 2, "max": -1, "msb": 1 << (k - 1), "msbm1": (1 << (k - 1)) - 1,
               "msbp1": (1 << (k - 1)) + 1, "alt": int("aa" * 16, 16)}.get(cls, rng.getrandbits(k)), k)


def can_mul(proto, ring):
    return proto != "malaby3" or ring[1:] not in ("32", "128")


def can_verify(proto, ring):
    return proto != "swift3" or BITS[ring] < 64


def rng_for(*key):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, key))))
