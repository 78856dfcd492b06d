#!/usr/bin/env python3
"""Checks that the installed tools are there and compiles what does not depend on /repo."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
override()
d = wdir("setup")
# The crates that /repo depends on, so that every check only builds /repo's own crates and the harness: what
# comes from /repo or depends on it is removed again and built by each check from the tree it then finds.
import cli
for f, cwd, target in ((lambda: harness(["net"]), os.path.join(ROOT, "harness"), target_dir()), (cli.build, cli.REPO, cli.target_dir())):
    try:
        f()
        own = [p["name"] for p in json.loads(subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=cwd, stdout=subprocess.PIPE, check=True).stdout)["packages"] if not p["source"]]
        sh(["cargo", "clean", "--offline"] + [x for p in own for x in ("-p", p)], env={"CARGO_TARGET_DIR": target, "RUSTUP_TOOLCHAIN": "stable"}, cwd=cwd)
    except Exception as e:
        print("nothing built beforehand:", e)
r = tlc("RingSelfTest", "RingSelfTest.cfg", d, workers=4)
shutil.rmtree(d, ignore_errors=True)
print("RingSelfTest:", "ok" if r.ok else r.out[-2000:])
sys.exit(0 if r.ok else 1)
