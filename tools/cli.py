"""The command-line tools: building and running them, reading and writing their databases."""
import hashlib, socket, sqlite3, struct, threading
import vlib
from vlib import *

REPO = os.environ.get("VERIF_REPO", "/repo")
BITS_N = 12800


def target_dir():
    return vlib.target_dir() + "-cli"


def build():
    """Builds the programs from /repo; returns the directory they are in.  Without debug assertions, as in
    the release builds that the documentation asks for: with them clap objects to the examples' options."""
    target = target_dir()
    env = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": target, "RUSTC_WRAPPER": "",
           "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false",
           "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true", "CARGO_INCREMENTAL": "0"}
    t = time.time()
    ex = [x for e in ("aby3", "aby3_mal", "spdzwise") for x in ("--example", e)]
    for cmd, cwd in ((["cargo", "build", "--offline", "--locked", "-p", "iris-mpc", "-p", "plain-reference", "--bins"] + ex, REPO),
                     (["cargo", "build", "--offline"], os.path.join(ROOT, "harness", "iris"))):
        rc, out = sh(cmd, env=env, timeout=800, cwd=cwd)
        if rc != 0:
            print(out[-6000:])
            raise ToolError("the command-line tools do not build")
    log("command-line tools built in %.0f s" % (time.time() - t))
    return os.path.join(target, "debug")


# ---------------------------------------------------------------------------------------------
# databases

def hexvec(blob, k):
    """A serialized vector as the specification writes it, or "" if it is not one."""
    w = k // 8
    if len(blob) < 8 or len(blob) != 8 + w * struct.unpack("<Q", blob[:8])[0]:
        return ""
    body = blob[8:]
    return b"".join(body[i:i + w][::-1] for i in range(0, len(body), w)).hex()


def hexel(blob, k):
    return blob[::-1].hex() if len(blob) == k // 8 else ""


def read(db):
    """What the file holds: entries and MAC keys."""
    if not os.path.exists(db):
        return [], []
    con = sqlite3.connect(db)
    try:
        tables = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        rows, keys = [], []
        if "iris_codes" in tables:
            cols = [r[1] for r in con.execute("PRAGMA table_info(iris_codes)")]
            sh_c = [c for c in cols if c.startswith("share_")]
            mac_c = [c for c in cols if c.startswith("mac_")]
            k = 64 if mac_c else 16
            for r in con.execute("SELECT code, mask%s FROM iris_codes ORDER BY id" % "".join(", " + c for c in sorted(sh_c) + sorted(mac_c))):
                v = [hexvec(x, k) for x in r[2:]]
                rows.append(dict(code=r[0].hex(), mask=r[1].hex(), sh=v[:len(sh_c)], mac=v[len(sh_c):]))
        if "mac_key" in tables:
            for r in con.execute("SELECT key, share_a, share_b, share_c FROM mac_key ORDER BY id"):
                keys.append(dict(key=hexel(r[0], 64), sh=[hexel(x, 64) for x in r[1:]]))
        return rows, keys
    finally:
        con.close()


def write(db, proto, codes, keys, rng):
    """A database of these (code, mask), shared afresh; keys: that many MAC keys, the first one counts."""
    k = 64 if proto == "spdzwise" else 16
    f = "<%d%s" % (BITS_N, "Q" if k == 64 else "H")
    mod = 1 << k
    vec = lambda v: struct.pack("<Q", len(v)) + struct.pack(f, *v)
    rand = lambda: list(struct.unpack(f, rng.randbytes(BITS_N * k // 8)))
    con = sqlite3.connect(db)
    names = {"aby3": "share_a share_b share_c", "spdzwise": "share_a mac_a share_b mac_b share_c mac_c", "plain": ""}[proto].split()
    con.execute("CREATE TABLE iris_codes (id INTEGER PRIMARY KEY, code BLOB NOT NULL, mask BLOB NOT NULL%s)" % "".join(", %s BLOB NOT NULL" % n for n in names))
    ks = [rng.getrandbits(64) for _ in range(keys)]
    if proto == "spdzwise":
        con.execute("CREATE TABLE mac_key (id INTEGER PRIMARY KEY, key BLOB NOT NULL, share_a BLOB NOT NULL, share_b BLOB NOT NULL, share_c BLOB NOT NULL)")
        for key in ks:
            a, b = rng.getrandbits(64), rng.getrandbits(64)
            con.execute("INSERT INTO mac_key (key, share_a, share_b, share_c) VALUES (?,?,?,?)", [struct.pack("<Q", x % mod) for x in (key, a, b, key - a - b)])
    for code, mask in codes:
        bits = [(code[j >> 3] >> (j & 7)) & 1 for j in range(BITS_N)]
        def share(v):
            a, b = rand(), rand()
            return [vec(a), vec(b), vec([(x - y - z) % mod for x, y, z in zip(v, a, b)])]
        cols = []
        if proto == "aby3":
            cols = share(bits)
        elif proto == "spdzwise":
            v, m = share(bits), share([x * (ks[0] if ks else 0) % mod for x in bits])
            cols = [v[0], m[0], v[1], m[1], v[2], m[2]]
        con.execute("INSERT INTO iris_codes (code, mask%s) VALUES (?,?%s)" % ("".join(", " + n for n in names), ",?" * len(names)), [code, mask] + cols)
    con.commit()
    con.close()


# ---------------------------------------------------------------------------------------------
# programs

class Place:
    """A scratch directory with a database, certificates and a configuration."""

    def __init__(self, bins, d):
        self.bins, self.d, self.db = bins, d, os.path.join(d, "db.sqlite")
        os.makedirs(d)
        self.certs = False

    def program(self, *a, timeout=100):
        try:
            p = subprocess.run([os.path.join(self.bins, a[0])] + list(a[1:]), cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return -1, "timeout"
        return p.returncode, p.stdout

    def drop(self):
        if os.path.exists(self.db):
            os.remove(self.db)

    def create(self, proto, n, seed="", name=None):
        a = ["create_sample_data_plain", "-d", self.db, "-i", str(n)] if proto == "plain" else \
            ["create_sample_data", "-d", self.db, "-i", str(n), "-m", name or proto] + (["-s", seed] if seed else [])
        rc, _ = self.program(*a)
        rows, keys = read(self.db)
        return dict(a="create", proto=proto, n=n, seed=seed, ok=rc == 0, rows=rows, keys=keys)

    def refuse(self, name):
        e = self.create("x", 1, "1", name)
        return dict(a="refuse", ok=e["ok"], rows=e["rows"], keys=e["keys"])

    def put(self, proto=None, codes=(), keys=1, rng=None):
        self.drop()
        if proto:
            write(self.db, proto, codes, keys, rng)
        rows, keys = read(self.db)
        return dict(a="put", rows=rows, keys=keys)

    def find(self, m):
        rc, out = self.program("find_match", "-d", self.db, *(["-s"] if m else []))
        ans = "1" if "Found a match!" in out else "0" if "No match found" in out else "refused"
        if (ans == "refused") == (rc == 0):
            ans = "exit %d with %s" % (rc, ans)
        return dict(a="find", m=m, out=[ans])

    def iris(self, seed):
        rc, out = self.program("iris", str(seed))
        if rc != 0:
            raise ToolError("iris: " + out)
        c, m = out.split()
        return bytes.fromhex(c), bytes.fromhex(m)

    def setup_net(self):
        if not self.certs:
            for j in range(3):
                rc, out = self.program("gen_cert", "-k", "key%d.der" % j, "-c", "cert%d.der" % j, "-s", "localhost", "-s", "party%d" % j)
            self.certs = True

    def query(self, prog, seed, m=False, chunk=1024, runs=1):
        """The three parties' programs; the answers they gave."""
        self.setup_net()
        runs = runs if prog != "aby3_mal" else 1
        ports = free_ports(runs)
        with open(os.path.join(self.d, "net.yaml"), "w") as f:
            for j in range(3):
                f.write('- id: %d\n  dns_name: "party%d"\n  bind_addr: "127.0.0.1:%d"\n  public_addr: "127.0.0.1:%d"\n  cert_path: "cert%d.der"\n' % (j, j, ports[j], ports[j], j))
        got = [None] * 3
        def party(j):
            got[j] = self.program("examples/" + prog, "--config-file", "net.yaml", "-k", "key%d.der" % j, "-p", str(j), "-d", self.db, "-i", str(seed),
                                  "--chunk-size", str(chunk), *(["-n", str(runs)] if prog != "aby3_mal" else []), *(["-s"] if m else []))
        ts = [threading.Thread(target=party, args=(j,)) for j in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        rcs = [g[0] for g in got]
        said = re.findall(r"Result is (\w+)", got[0][1])
        said = [{"true": "1", "false": "0"}.get(x, x) for x in said]
        if 2 in rcs:
            raise ToolError("%s does not know its options: %s" % (prog, got[rcs.index(2)][1][-600:]))
        if -1 in rcs:
            out = ["hang"]
        elif all(r == 0 for r in rcs):
            out = said
        elif all(r != 0 for r in rcs) and not said:
            out = ["refused"]
        else:
            out = said + ["exit %s" % rcs]
        c, k = self.iris(seed)
        return dict(a="query", prog=prog, proto="spdzwise" if prog == "spdzwise" else "aby3", m=m, runs=runs, q=dict(code=c.hex(), mask=k.hex()), out=out)


_ports = threading.Lock()
_next = [20000 + os.getpid() % 97 * 100]


def free_ports(runs):
    """Three ports with so many free ones after each."""
    with _ports:
        res = []
        while len(res) < 3:
            base = _next[0]
            _next[0] = base + runs if base < 45000 else 20000
            try:
                for p in range(base, base + runs):
                    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                    try:
                        s.bind(("127.0.0.1", p))
                    finally:
                        s.close()
            except OSError:
                continue
            res.append(base)
        return res
