#!/usr/bin/env python3
"""fuzz.py PROPERTY SECONDS [INPUT]: streams generated by libFuzzer, guided by the coverage of the library,
and judged by the model and the oracles of the harness. If it cannot be built, says so and ends with status 0."""
import json, os, re, shutil, subprocess, sys, time
prop, seconds = sys.argv[1], int(sys.argv[2])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed = int(os.environ.get("VERIF_SEED", "1"))
target = f"{root}/target/fuzz"
flags = "--cfg fuzzing -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares"
start = time.time()
b = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--quiet", "--target", "x86_64-unknown-linux-gnu", "--manifest-path", f"{root}/fuzz/Cargo.toml"],
    env=dict(os.environ, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=flags, CARGO_TARGET_DIR=target, CARGO_PROFILE_RELEASE_LTO="off"), stderr=subprocess.PIPE, text=True, errors="replace")
if b.returncode != 0:
    print("note: cannot build for libFuzzer; going on without it: " + b.stderr.strip()[-300:])
    sys.exit(0)
exe = f"{target}/x86_64-unknown-linux-gnu/release/vhfuzz"
env = dict(os.environ, FUZZ_PROP=prop)
if len(sys.argv) > 3:
    sys.exit(subprocess.run([exe, sys.argv[3]], env=env).returncode != 0)
d = f"{root}/scratch/fuzz-{prop}-{os.getpid()}"
shutil.rmtree(d, ignore_errors=True)
jobs = os.cpu_count() or 4
for k in ["seeds", "corpus"] + [f"a{k}" for k in range(jobs)]:
    os.makedirs(f"{d}/{k}")
if subprocess.run([exe], env=dict(env, FUZZ_SEEDS=f"{d}/seeds"), stderr=subprocess.DEVNULL).returncode != 0:
    print("cannot write the first inputs", file=sys.stderr)
    sys.exit(2)
built = time.time()
end = built + seconds
ps, runs = {}, 0
logs = []
def spawn(k):
    """A process, with the seconds that are left"""
    global runs
    # Those of different lengths find different things. They share what they find.
    args = [exe, f"{d}/corpus", f"{d}/seeds", f"-seed={seed * 1000 + runs}", f"-max_len={[2000, 6000, 20000][k % 3]}", f"-max_total_time={max(1, int(end - time.time()))}", "-timeout=300",
        "-rss_limit_mb=3000", "-reload=30", f"-use_value_profile={k % 2}", "-print_final_stats=1", f"-artifact_prefix={d}/a{k}/"]
    logs.append(f"{d}/{runs}.log")
    ps[k] = subprocess.Popen(args, env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=open(logs[-1], "w")), logs[-1]
    runs += 1
for k in range(jobs):
    spawn(k)
found = None
while ps and not found and time.time() < end + 60:
    for k, (p, log) in list(ps.items()):
        if p.poll() is None:
            continue
        del ps[k]
        t = open(log, errors="replace").read()
        m = re.search(r"^broken: (.*)", t, re.M)
        arts = [a for a in os.listdir(f"{d}/a{k}") if a.startswith("crash-")]
        if m and arts:
            found = m.group(1), f"{d}/a{k}/{arts[0]}"
        elif arts and prop == "C07":
            found = "crash: " + t[-500:], f"{d}/a{k}/{arts[0]}"
        elif p.returncode != 0 and runs < 100:
            # Codebooks of millions of entries: time and memory have other workloads
            m = re.search(r"SUMMARY: (.*)", t)
            print(f"note: libFuzzer ended with {p.returncode}: {m.group(1) if m else t[-200:]}")
            if time.time() < end - 5:
                spawn(k)
    time.sleep(0.3)
for p, _ in ps.values():
    p.kill()
    p.wait()
seen = {"processes": runs, "executions": 0, "judged": 0, "invalid streams": 0, "valid streams": 0, "with two decodable audio packets": 0, "inputs that reach something new": len(os.listdir(f"{d}/corpus")), "edges and features covered": 0}
for log in logs:
    t = open(log, errors="replace").read()
    m = re.findall(r"^judged (\d+) (\d+) (\d+) (\d+)$", t, re.M)
    if m:
        for x, n in zip(["judged", "invalid streams", "valid streams", "with two decodable audio packets"], m[-1]):
            seen[x] += int(n)
    m = re.findall(r"^#(\d+).* ft: (\d+)", t, re.M)
    if m:
        seen["executions"] += int(m[-1][0])
        seen["edges and features covered"] = max(seen["edges and features covered"], int(m[-1][1]))
seen["wall_s"], seen["build_s"] = round(time.time() - built, 1), round(built - start, 1)
json.dump(seen, open(f"{root}/scratch/{prop}-fuzz.json", "w"))
print(f"{prop} in libFuzzer: {seen['judged']} cases judged, {seen['valid streams']} valid, {int(bool(found))} violations, {seen['wall_s']} s")
if found:
    r = f"{root}/replays/{prop}"
    os.makedirs(r, exist_ok=True)
    shutil.copy(found[1], f"{r}/fuzz.case")
    open(f"{r}/fuzz.txt", "w").write(f"{found[0]}\nreproduce: python3 tools/fuzz.py {prop} 0 {r}/fuzz.case\n")
    print(found[0])
    print(f"VIOLATION property={prop} replay={r}/fuzz.txt")
shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if found else 0)
