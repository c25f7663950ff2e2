//! Check driver: runs numbered cases on all cores, records what was observed, reports violations.
use crate::rng::{hash_bytes, mix, mix_str, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation found by a case
pub struct Viol {
    pub msg: String,
    /// Input that makes it fail, for the report
    pub input: Option<Vec<u8>>,
}
impl From<String> for Viol {
    fn from(msg: String) -> Self {
        Viol { msg, input: None }
    }
}
impl From<&str> for Viol {
    fn from(msg: &str) -> Self {
        Viol { msg: msg.into(), input: None }
    }
}
pub type Res = Result<(), Viol>;
pub trait WithInput<T> {
    fn input(self, i: &[u8]) -> Result<T, Viol>;
}
impl<T, E: Into<Viol>> WithInput<T> for Result<T, E> {
    fn input(self, i: &[u8]) -> Result<T, Viol> {
        self.map_err(|e| {
            let mut v: Viol = e.into();
            v.input.get_or_insert_with(|| i.to_vec());
            v
        })
    }
}

/// What one case observed
#[derive(Default)]
pub struct Obs {
    pub key: u64,
    pub nontrivial: bool,
    pub counts: BTreeMap<String, u64>,
    pub sample: Option<String>,
    /// Executions of the code under test beyond the first
    pub evals: u64,
    pub known: BTreeMap<String, u64>,
}
impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max {k}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn input(&mut self, b: &[u8]) {
        self.key = hash_bytes(b);
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub known: Vec<(String, String)>,
    state: Mutex<State>,
    stop: AtomicBool,
}
#[derive(Default)]
struct State {
    evals: u64,
    cases: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: u64,
    known_seen: BTreeMap<String, u64>,
    workloads: Vec<String>,
    harness_error: Option<String>,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Sanitizer builds run this many times fewer cases
pub fn slowness() -> u64 {
    std::env::var("VH_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1).max(1)
}

/// A folder for temporary files of this run
pub fn scratch(name: &str) -> PathBuf {
    verif_dir().join("scratch").join(name)
}

fn thread_cpu(tid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some((f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0)
}
fn my_tid() -> u32 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier, only: Option<(String, u64)>) -> Self {
        // Known findings: id, space, signature
        let known = std::fs::read_to_string(verif_dir().join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("KNOWN-FINDING: property=")?;
                let (p, rest) = l.split_once(' ')?;
                Some((p.to_string(), rest.to_string()))
            })
            .collect();
        Ctx {
            prop: prop.into(),
            seed,
            tier,
            only,
            start: Instant::now(),
            known,
            state: Mutex::default(),
            stop: AtomicBool::new(false),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Wall time after which no more cases are started: the rest is not run, never a verdict
    fn budget(&self) -> f64 {
        if self.quick() {
            500.0
        } else {
            6.0 * 3600.0
        }
    }
    pub fn pick(&self, quick: u64, thorough: u64) -> u64 {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    /// Is `sig` listed in known-findings.txt for this property? A finding is listed by the word
    /// that follows the property: "KNOWN-FINDING: property=C01 <sig> text".
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(p, r)| *p == self.prop && r.split(' ').next() == Some(sig))
    }
    pub fn rng(&self, workload: &str, case: u64) -> Rng {
        Rng::new(mix(mix_str(mix_str(self.seed, &self.prop), workload), case))
    }
    pub fn add(&self, k: &str, n: u64) {
        *self.state.lock().unwrap().counts.entry(k.into()).or_insert(0) += n;
    }

    fn violation(&self, workload: &str, case: u64, v: &Viol) {
        let mut st = self.state.lock().unwrap();
        st.violations += 1;
        if st.violations > 3 {
            return;
        }
        let dir = verif_dir().join("replays").join(&self.prop);
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{workload}-{case}.txt"));
        let mut s = format!(
            "property={} workload={workload} case={case} seed={} tier={:?}\nreproduce: VERIF_SEED={} ./check {} replay {workload} {case}\n{}\n",
            self.prop, self.seed, self.tier, self.seed, self.prop, v.msg
        );
        if let Some(i) = &v.input {
            let ogg = f.with_extension("ogg");
            if i.len() < 64 << 20 {
                let _ = std::fs::write(&ogg, i);
                s += &format!("input: {}\n", ogg.display());
            }
        }
        let _ = std::fs::write(&f, &s);
        let mut m = v.msg.clone();
        if m.len() > 1500 {
            let mut k = 1500;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
        }
        println!("[{workload} case {case}] {m}");
        println!("VIOLATION property={} replay={}", self.prop, f.display());
        let _ = std::io::stdout().flush();
    }

    /// Runs cases 0..n of a workload on `threads` threads (0: all cores)
    pub fn run(&self, workload: &str, n: u64, threads: usize, f: impl Fn(u64, &mut Rng, &mut Obs) -> Res + Sync) {
        if self.stop.load(SeqCst) {
            return;
        }
        let (from, to) = match &self.only {
            Some((w, c)) if w == workload => (*c, *c + 1),
            Some(_) => return,
            None => (0, (n / slowness()).max(n.min(1))),
        };
        let threads = if threads == 0 { std::thread::available_parallelism().map_or(4, |n| n.get()) } else { threads };
        let threads = threads.min((to - from).max(1) as usize);
        let next = AtomicU64::new(from);
        let t0 = Instant::now();
        // (thread id, case or MAX, CPU seconds at the start of the case)
        let slots: Vec<Mutex<(u32, u64, f64)>> = (0..threads).map(|_| Mutex::new((0, u64::MAX, 0.0))).collect();
        let live = AtomicUsize::new(threads);
        let limit = if slowness() > 1 { 400.0 } else { 90.0 };
        std::thread::scope(|s| {
            for (si, slot) in slots.iter().enumerate() {
                let (next, live, f) = (&next, &live, &f);
                let work = move || {
                    let tid = my_tid();
                    loop {
                        let c = next.fetch_add(1, SeqCst);
                        if c >= to || self.stop.load(SeqCst) || self.start.elapsed().as_secs_f64() > self.budget() {
                            break;
                        }
                        crate::sup::mark(si, &format!("{workload} {c}"));
                        *slot.lock().unwrap() = (tid, c, thread_cpu(tid).unwrap_or(0.0));
                        let mut rng = self.rng(workload, c);
                        let mut obs = Obs { evals: 1, ..Default::default() };
                        crate::run::set_log(self.rng("log", c).chance(1, 4));
                        let r = crate::run::guard(|| f(c, &mut rng, &mut obs));
                        match crate::run::set_log(false) {
                            0 => (),
                            n => obs.count("log messages formatted", n),
                        }
                        slot.lock().unwrap().1 = u64::MAX;
                        crate::sup::mark(si, "");
                        let mut st = self.state.lock().unwrap();
                        st.cases += 1;
                        st.evals += obs.evals;
                        if obs.nontrivial {
                            st.distinct.insert(obs.key);
                        }
                        for (k, v) in obs.counts {
                            let e = st.counts.entry(k.clone()).or_insert(0);
                            *e = if k.starts_with("max ") { (*e).max(v) } else { *e + v };
                        }
                        for (k, v) in obs.known {
                            *st.known_seen.entry(k).or_insert(0) += v;
                        }
                        if let Some(x) = obs.sample {
                            if st.samples.len() < 12 && (c < 4 || st.samples.len() < 4) {
                                st.samples.push(format!("{workload} case {c}: {x}"));
                            }
                        }
                        drop(st);
                        match r {
                            Ok(Ok(())) => (),
                            Ok(Err(v)) => {
                                self.violation(workload, c, &v);
                                self.stop.store(true, SeqCst);
                            }
                            // A panic inside the code under test that no oracle caught
                            Err(p) if p.contains("/repo/packages/") => {
                                self.violation(workload, c, &format!("panic: {p}").into());
                                self.stop.store(true, SeqCst);
                            }
                            Err(p) => {
                                self.state.lock().unwrap().harness_error.get_or_insert(format!("{workload} case {c}: {p}"));
                                self.stop.store(true, SeqCst);
                            }
                        }
                    }
                    live.fetch_sub(1, SeqCst);
                };
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, work).unwrap();
            }
            // Watchdog on CPU time of each case
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                if t0.elapsed().as_secs() % 2 == 0 {
                    for slot in &slots {
                        let (tid, c, cpu) = *slot.lock().unwrap();
                        if c != u64::MAX {
                            if let Some(now) = thread_cpu(tid) {
                                if now - cpu > limit && slot.lock().unwrap().1 == c {
                                    self.violation(workload, c, &format!("the case did not finish after {limit} CPU seconds").into());
                                    let _ = self.finish_evidence("exploration", "");
                                    std::process::exit(1);
                                }
                            }
                        }
                    }
                }
            }
        });
        let mut st = self.state.lock().unwrap();
        let k = next.load(SeqCst).min(to) - from;
        if self.start.elapsed().as_secs_f64() > self.budget() {
            st.workloads.push("out of time: later cases were not run".into());
        }
        st.workloads.push(format!("{workload}: {k} cases in {:.1} s", t0.elapsed().as_secs_f64()));
    }

    fn finish_evidence(&self, level: &str, rule: &str) -> std::io::Result<()> {
        let st = self.state.lock().unwrap();
        let mut j = String::new();
        j += "{\n";
        j += &format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{level}\",\n", js(&self.prop), if self.quick() { "quick" } else { "thorough" }, self.seed as i64);
        j += " \"coverage\": {\n";
        j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", st.evals, st.distinct.len(), js(rule));
        j += &format!("  \"samples\": [{}],\n", st.samples.iter().map(|s| js(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(", "));
        j += &format!("  \"workloads\": [{}],\n", st.workloads.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        j += &format!("  \"known_findings_observed\": {{{}}},\n", st.known_seen.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        // Evidence of sanitizer builds that ran before ("NAME=FILE ...", by the check script)
        for part in std::env::var("VH_MERGE").unwrap_or_default().split_whitespace() {
            if let Some((name, f)) = part.split_once('=') {
                if let Ok(t) = std::fs::read_to_string(f) {
                    j += &format!("  {}: {},\n", js(name), t.trim());
                }
            }
        }
        j += &format!("  \"observed\": {{{}}}\n }},\n", st.counts.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        j += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), st.violations);
        if let Some(f) = std::env::var_os("VH_EVIDENCE") {
            return std::fs::write(f, j);
        }
        let d = verif_dir().join("evidence");
        std::fs::create_dir_all(&d)?;
        std::fs::write(d.join(format!("{}.json", self.prop)), j)
    }

    /// Writes the evidence, prints the known findings; returns the exit status
    pub fn finish(&self, level: &str, rule: &str) -> i32 {
        if self.only.is_none() {
            if let Err(e) = self.finish_evidence(level, rule) {
                eprintln!("cannot write evidence: {e}");
                return 2;
            }
        }
        let st = self.state.lock().unwrap();
        for (p, r) in &self.known {
            if *p == self.prop && self.only.is_none() && std::env::var_os("VH_EVIDENCE").is_none() {
                println!("KNOWN-FINDING: property={p} {r}");
                let sig = r.split(' ').next().unwrap_or("");
                if !st.known_seen.contains_key(sig) {
                    println!("note: known finding {sig} was not observed in this run");
                }
            }
        }
        println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {} violations, {:.1} s", self.prop, st.cases, st.evals, st.distinct.len(), st.violations, self.start.elapsed().as_secs_f64());
        if std::env::var_os("VH_VERBOSE").is_some() {
            for w in &st.workloads {
                println!("  {w}");
            }
            for (k, v) in &st.counts {
                println!("  {k}: {v}");
            }
            for s in &st.samples {
                println!("  {}", s.chars().take(300).collect::<String>());
            }
        }
        if st.violations > 0 {
            return 1;
        }
        if let Some(e) = &st.harness_error {
            eprintln!("harness error: {e}");
            return 2;
        }
        if st.cases == 0 || (st.distinct.is_empty() && self.only.is_none()) {
            eprintln!("inconclusive: nothing was observed");
            return 2;
        }
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
