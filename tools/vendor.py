#!/usr/bin/env python3
"""vendor.py FOLDER LOCKFILE...: a Cargo directory source with the crates of the lock files (from
Cargo's download cache) and those of the nightly standard library, for builds with -Zbuild-std."""
import glob, json, os, subprocess, sys, tarfile, tomllib
out, locks = sys.argv[1], sys.argv[2:]
home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
std = sysroot + "/lib/rustlib/src/rust/library/vendor"
os.makedirs(out, exist_ok=True)
for v in os.listdir(std):
    if not os.path.lexists(f"{out}/{v}"):
        os.symlink(f"{std}/{v}", f"{out}/{v}")
for lock in locks:
    for p in tomllib.load(open(lock, "rb"))["package"]:
        n = f"{p['name']}-{p['version']}"
        if "checksum" not in p or os.path.exists(f"{out}/{n}/.cargo-checksum.json"):
            continue
        f = glob.glob(f"{home}/registry/cache/*/{n}.crate")
        if not f:
            # Not downloaded: not needed for this platform, or the build tells
            continue
        with tarfile.open(f[0]) as t:
            t.extractall(out, filter="data")
        json.dump({"files": {}, "package": p["checksum"]}, open(f"{out}/{n}/.cargo-checksum.json", "w"))
