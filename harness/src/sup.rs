//! Supervision: the checks run in a child process, so that a crash of the code under test (abort,
//! stack overflow, sanitizer report) is reported with the case that made it happen.
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::sync::OnceLock;

static STATE: OnceLock<Option<std::fs::File>> = OnceLock::new();
const REC: usize = 64;

/// Notes that a thread is about to run a case ("" when it is done)
pub fn mark(slot: usize, what: &str) {
    let f = STATE.get_or_init(|| {
        let p = std::env::var_os("VH_STATE")?;
        std::fs::OpenOptions::new().write(true).open(p).ok()
    });
    if let Some(f) = f {
        let mut b = [b' '; REC];
        let n = what.len().min(REC - 1);
        b[..n].copy_from_slice(&what.as_bytes()[..n]);
        b[REC - 1] = b'\n';
        let _ = f.write_at(&b, (slot * REC) as u64);
    }
}

pub fn is_child() -> bool {
    std::env::var_os("VH_STATE").is_some()
}

/// Runs this program again as a supervised child, and returns the exit status to use
pub fn supervise(prop: &str) -> i32 {
    let dir = crate::ctx::scratch(&format!("state-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let state = dir.join("state");
    if std::fs::write(&state, b"").is_err() {
        eprintln!("cannot write {}", state.display());
        return 2;
    }
    let r = Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("VH_STATE", &state).status();
    let cases = std::fs::read_to_string(&state).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let cases: Vec<&str> = cases.lines().map(|l| l.trim_matches(|c: char| c == ' ' || c == '\0')).filter(|l| !l.is_empty()).collect();
    let st = match r {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot run the check: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        // Sanitizers exit with this status (ASAN_OPTIONS, in the check script)
        if c != 77 {
            return c;
        }
    }
    let sig = st.signal().unwrap_or(0);
    let crash = st.code() == Some(77) || [4, 5, 6, 7, 8, 11].contains(&sig);
    if !crash || cases.is_empty() {
        eprintln!("inconclusive: the check was ended by {st} while running {cases:?}");
        return 2;
    }
    let d = crate::ctx::verif_dir().join("replays").join(prop);
    let _ = std::fs::create_dir_all(&d);
    let f = d.join("crash.txt");
    let seed = std::env::var("VERIF_SEED").unwrap_or("1".into());
    let mut t = format!("property={prop}: the process crashed ({st}) while running one of these cases:\n");
    for c in &cases {
        t += &format!("reproduce: VERIF_SEED={seed} ./check {prop} replay {c}\n");
    }
    let _ = std::fs::write(&f, &t);
    print!("{t}");
    println!("VIOLATION property={prop} replay={}", f.display());
    1
}
