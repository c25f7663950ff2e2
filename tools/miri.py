#!/usr/bin/env python3
"""miri.py PROPERTY SECONDS CASES: runs small cases in Miri, in processes of a few at a time with different
scheduler seeds, for a limited time. Undefined behaviour, data races, leaks and results other than those of
the native build are violations. If Miri cannot be used, says so and ends with status 0."""
import glob, json, os, re, shutil, subprocess, sys, threading, time
prop, seconds, cases = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed = os.environ.get("VERIF_SEED", "1")
d = f"{root}/scratch/miri-{prop}-{os.getpid()}"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
env = dict(os.environ, CARGO_TARGET_DIR=f"{root}/target/miri", RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
# Without the random errors of functions like powi, of which no precision is promised, but is in practice
BASE = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"

def miri(files, flags, timeout):
    e = dict(env, MIRIFLAGS=f"{BASE} {flags}")
    p = subprocess.Popen(["cargo", "miri", "run", "--quiet", "--locked", "--manifest-path", f"{root}/miri/Cargo.toml", "--"] + files,
        env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, err = p.communicate(timeout=timeout)
        return p.returncode, o, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, err = p.communicate()
        return None, o, err

def skip(why):
    print(f"note: {why}; going on without Miri")
    shutil.rmtree(d, ignore_errors=True)
    sys.exit(0)

start = time.time()
try:
    rc, o, err = miri([], "", 300)
except OSError as e:
    skip(f"cannot run cargo miri ({e})")
if rc != 0:
    skip("cannot build for Miri: " + err.strip()[-300:])
if subprocess.run([f"{root}/target/release/vh", "miri-cases", prop, d, str(cases), seed]).returncode != 0:
    print("cannot write the cases", file=sys.stderr)
    sys.exit(2)
built = time.time()
end = built + seconds
lock = threading.Lock()
queue = [f"{d}/{k}.case" for k in range(cases)]
seen = {"processes": 0, "cases": 0, "runs": 0, "accepted": 0, "refused": 0, "bytes of input": 0, "cases cut off by the time limit": 0}
bad = []

def judge(f, results):
    want = open(f[:-4] + "want").read()
    b = open(f, "rb").read()
    for r in results:
        if want.startswith("random ") and r.startswith("ok"):
            r = f"random {(len(r) - 3) // 2}"
        elif r.startswith("err"):
            r = "err"
        if r != want:
            return f"the result in Miri is {r[:1000]}, natively {want[:1000]}"
    if len(results) != max(1, b[0]):
        return f"{len(results)} results instead of {max(1, b[0])}"
    with lock:
        seen["cases"] += 1
        seen["runs"] += len(results)
        seen["accepted" if want[0] in "or" else "refused"] += len(results)
        seen["bytes of input"] += (len(b) - 6) * len(results)

def report(f, what, detail):
    with lock:
        bad.append((f, what, detail))

def work():
    while not bad:
        with lock:
            files = queue[:4]
            del queue[:4]
            seen["processes"] += 1
            n = seen["processes"]
        left = end - time.time()
        if not files or left < 3:
            return
        rc, o, err = miri(files, f"-Zmiri-seed={int(seed) * 1000 + n}", left)
        cur, results, done = None, [], set()
        for l in o.splitlines():
            if l.startswith("begin "):
                cur, results = l[6:], []
            elif l == "end" and cur:
                done.add(cur)
                w = judge(cur, results)
                if w:
                    report(cur, w, "")
                cur = None
            elif cur:
                results.append(l)
        if rc is None:
            with lock:
                seen["cases cut off by the time limit"] += len(files) - len(done)
        elif rc != 0:
            m = re.search(r"error:? ?(.*(?:Undefined Behavior|[Dd]ata race|leaked|deadlock).*)", err)
            if not m:
                with lock:
                    seen.setdefault("processes that Miri could not run", 0)
                    seen["processes that Miri could not run"] += 1
                print("note: Miri: " + err.strip()[-300:])
                continue
            report(cur or files[-1], m.group(1), err)

t = [threading.Thread(target=work) for _ in range(os.cpu_count() or 4)]
[x.start() for x in t]
[x.join() for x in t]
seen["wall_s"] = round(time.time() - built, 1)
seen["build_s"] = round(built - start, 1)
print(f"{prop} in Miri: {seen['cases']} cases, {seen['runs']} remuxes, {len(bad)} violations, {seen['wall_s']} s")
out = f"{root}/scratch/{prop}-miri.json"
json.dump(seen, open(out, "w"))
if bad:
    r = f"{root}/replays/{prop}"
    os.makedirs(r, exist_ok=True)
    f, what, detail = bad[0]
    shutil.copy(f, f"{r}/miri.case")
    open(f"{r}/miri.txt", "w").write(f"{what}\n{detail}\nreproduce: MIRIFLAGS='{BASE}' cargo +nightly miri run --locked --manifest-path miri/Cargo.toml -- {r}/miri.case\n")
    print(what)
    print(f"VIOLATION property={prop} replay={r}/miri.txt")
shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
