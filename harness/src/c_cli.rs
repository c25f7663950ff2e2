//! C15: the command-line program.
use crate::c_env::{bad_ident, small_scenario, TmpDir};
use crate::ctx::*;
use crate::gen::{self, Profile};
use crate::mutate;
use crate::ogg;
use crate::rng::Rng;
use crate::run::{self, Bad, Cfg, VENDORS};
use crate::scen::{self, Gp};
use std::io::{Cursor, Read};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn exe() -> PathBuf {
    std::env::var_os("VH_CLI").map(PathBuf::from).expect("VH_CLI is not set")
}
struct Done {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
impl Done {
    /// A failure that is reported as failures are
    fn reported(&self) -> Result<(), String> {
        match self.code {
            Some(0) => Err("the exit status is 0".into()),
            None => Err(format!("ended by a signal: {}", self.err)),
            Some(124 | 137) => Err("the program did not end".into()),
            Some(_) if self.err.trim().is_empty() => Err("no message in standard error".into()),
            Some(_) if self.err.contains("panicked at") => Err(format!("the program panicked: {}", self.err)),
            Some(_) => Ok(()),
        }
    }
}
enum Out {
    Piped,
    To(Stdio),
}
struct Call<'a> {
    dir: &'a Path,
    args: Vec<String>,
    epoch: Option<String>,
    /// Maximum size of files written
    fsize: Option<u64>,
    out: Out,
    stdin: Stdio,
}
impl<'a> Call<'a> {
    fn new(dir: &'a Path, args: Vec<String>) -> Self {
        Call { dir, args, epoch: None, fsize: None, out: Out::Piped, stdin: Stdio::null() }
    }
    fn run(self) -> Done {
        let mut c;
        match self.fsize {
            Some(n) => {
                c = Command::new("bash");
                c.arg("-c").arg("trap '' XFSZ; n=$1; shift; exec prlimit --fsize=$n:$n \"$@\"").arg("bash").arg(n.to_string());
                c.args(["timeout", "-k", "5", "200"]).arg(exe());
            }
            None => {
                c = Command::new("timeout");
                c.args(["-k", "5", "200"]).arg(exe());
            }
        }
        c.args(&self.args).current_dir(self.dir).stdin(self.stdin).stderr(Stdio::piped());
        c.env_remove("SOURCE_DATE_EPOCH").env_remove("RUST_BACKTRACE").env_remove("RUST_LOG");
        if let Some(e) = &self.epoch {
            c.env("SOURCE_DATE_EPOCH", e);
        }
        match self.out {
            Out::Piped => c.stdout(Stdio::piped()),
            Out::To(s) => c.stdout(s),
        };
        let mut child = c.spawn().expect("cannot run the program");
        drop(c); // closes its copies of the files
        let mut so = child.stdout.take();
        let mut se = child.stderr.take().unwrap();
        let t = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        let mut out = vec![];
        if let Some(s) = &mut so {
            let _ = s.read_to_end(&mut out);
        }
        let st = child.wait().unwrap();
        Done { code: st.code(), out, err: String::from_utf8_lossy(&t.join().unwrap()).into_owned() }
    }
}

/// The documented defaults of the program
fn defaults() -> Cfg {
    Cfg { vendor: 2, fields: 0, random: true, offset: 0, ignore: false, err_none: true, verify: true }
}
/// Random valid options, and the settings they stand for. Always with the remuxer if `remuxer`
fn options(rng: &mut Rng, remuxer: bool) -> (Vec<Vec<String>>, Cfg, bool) {
    let mut cfg = defaults();
    let mut o: Vec<Vec<String>> = vec![];
    fn long(rng: &mut Rng, name: &str, v: &str) -> Vec<String> {
        if rng.chance(1, 2) {
            vec![format!("--{name}={v}")]
        } else {
            vec![format!("--{name}"), v.into()]
        }
    }
    if remuxer || rng.chance(1, 3) {
        o.push(match rng.below(4) {
            0 => vec!["-r".into(), "ogg2ogg".into()],
            1 => vec!["-rogg2ogg".into()],
            2 => vec!["--remuxer".into(), "ogg2ogg".into()],
            _ => vec!["--remuxer=ogg2ogg".into()],
        });
    }
    let mut quiet = false;
    if rng.chance(1, 3) {
        quiet = true;
        o.push(vec![rng.pick(&["-q", "--quiet"]).to_string()]);
    }
    for _ in 0..rng.below(5) {
        if rng.chance(1, 3) {
            o.push(vec![rng.pick(&["-v", "--verbose", "-vv", "-vvv"]).to_string()]);
        }
    }
    if rng.chance(2, 3) {
        cfg.vendor = rng.below(5) as u8;
        let v = VENDORS[cfg.vendor as usize];
        o.push(long(rng, "vendor_string_action", v));
    }
    if rng.chance(1, 2) {
        cfg.fields = rng.below(2) as u8;
        let v = ["copy", "delete"][cfg.fields as usize];
        o.push(long(rng, "comment_fields_action", v));
    }
    let mut set = |rng: &mut Rng, p: (usize, usize), name: &str, v: &mut bool| {
        if rng.chance(p.0, p.1) {
            *v = rng.chance(1, 2);
            let t = format!("{name}={v}");
            o.push(long(rng, "remuxer_option", &t));
        }
    };
    set(rng, (3, 4), "randomize_stream_serials", &mut cfg.random);
    set(rng, (1, 3), "ignore_start_sample_offset", &mut cfg.ignore);
    set(rng, (1, 3), "error_on_no_vorbis_streams", &mut cfg.err_none);
    set(rng, (1, 3), "verify_ogg_page_checksums", &mut cfg.verify);
    if rng.chance(1, 2) {
        cfg.offset = *rng.pick(&[0, 1, 77, 123_456_789, 0x7fff_ffff, 0x8000_0000, u32::MAX]);
        let t = format!("first_stream_serial_offset={}", cfg.offset);
        o.push(long(rng, "remuxer_option", &t));
    }
    rng.shuffle(&mut o);
    (o, cfg, quiet)
}

/// `helper cfg VENDOR FIELDS RANDOM OFFSET IGNORE ERR VERIFY IN OUT`: remuxes with the library
pub fn helper(a: &[String]) -> i32 {
    let b = |i: usize| a[i] == "true";
    let cfg = Cfg { vendor: a[0].parse().unwrap(), fields: a[1].parse().unwrap(), random: b(2), offset: a[3].parse().unwrap(), ignore: b(4), err_none: b(5), verify: b(6) };
    match run::remux_io(&cfg.remuxer(), Cursor::new(std::fs::read(&a[7]).unwrap()), Vec::new()) {
        Ok(o) => {
            std::fs::write(&a[8], o).unwrap();
            0
        }
        Err(e) => {
            eprintln!("{e}");
            11
        }
    }
}
/// What the library gives for a file, in another process
fn library(cfg: &Cfg, epoch: Option<&str>, input: &Path, output: &Path) -> Result<Vec<u8>, String> {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["helper", "cfg"]);
    c.args([cfg.vendor.to_string(), cfg.fields.to_string(), cfg.random.to_string(), cfg.offset.to_string(), cfg.ignore.to_string(), cfg.err_none.to_string(), cfg.verify.to_string()]);
    c.arg(input).arg(output).env_remove("SOURCE_DATE_EPOCH");
    if let Some(e) = epoch {
        c.env("SOURCE_DATE_EPOCH", e);
    }
    let o = c.output().expect("cannot run the helper");
    match o.status.code() {
        Some(0) => Ok(std::fs::read(output).unwrap()),
        Some(11) => Err(String::from_utf8_lossy(&o.stderr).into_owned()),
        x => panic!("the helper ended with {x:?}: {}", String::from_utf8_lossy(&o.stderr)),
    }
}
/// The pages with serials replaced by their order
fn without_serials(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut seen: Vec<u32> = vec![];
    let mut pages = ogg::parse_pages(b)?;
    for p in &mut pages {
        let k = seen.iter().position(|s| *s == p.serial).unwrap_or_else(|| {
            seen.push(p.serial);
            seen.len() - 1
        });
        p.serial = k as u32;
    }
    Ok(ogg::join(&pages))
}
fn first_serial(b: &[u8]) -> Option<u32> {
    b.get(14..18).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
}

/// An input file, and what it is
fn input(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    match rng.below(12) {
        0 => {
            let mut pages = vec![];
            for s in scen::new_serials(rng, 2) {
                pages.extend(ogg::foreign_stream(rng, s, true));
            }
            (ogg::join(&pages), "no Vorbis streams")
        }
        1 => {
            let sc = small_scenario(rng);
            let mut b = sc.bytes;
            // the checksum of a page
            let starts: Vec<usize> = (0..b.len() - 27).filter(|&i| &b[i..i + 4] == b"OggS").collect();
            let at = *rng.pick(&starts);
            b[at + 22 + rng.below(4)] ^= 1 << rng.below(8);
            (b, "a wrong checksum")
        }
        2 => {
            let mut pr = Profile::random(rng);
            pr.max_packets = 3;
            pr.extreme = false;
            let mut pk = gen::gen_stream(rng, &pr).packets();
            bad_ident(&mut pk[0], rng);
            (ogg::join(&mutate::mux(&pk, rng)), "invalid stream")
        }
        3 => {
            let mut pr = Profile::random(rng);
            pr.max_packets = 300;
            pr.big = true;
            pr.extreme = false;
            pr.max_channels = 2;
            (scen::random_single(rng, &pr, Gp::Valid).bytes, "long stream")
        }
        4 => {
            let pr = Profile::random(rng);
            let vs = gen::gen_stream(rng, &pr);
            let f = rng.below(2);
            (scen::chain(vec![vs], f, Gp::Corrupt, rng).bytes, "wrong granule positions")
        }
        _ => (small_scenario(rng).bytes, "valid streams"),
    }
}
const NAMES: [&str; 6] = ["out", "an output file", "o.x", "óùt", "out.ogg", "é.è"];

fn args(o: &[Vec<String>], files: &[&str]) -> Vec<String> {
    o.iter().flatten().cloned().chain(files.iter().map(|s| s.to_string())).collect()
}

pub fn c15(ctx: &Ctx) -> i32 {
    let version = Call::new(Path::new("/"), vec!["--version".into()]).run();
    let tag = String::from_utf8_lossy(&version.out).lines().next().unwrap_or("").to_string();
    // The tags of both builds of the library may differ, as they depend on how it is built
    let same_tag = tag == optivorbis::OPTIVORBIS_VERSION_TAG;
    ctx.add(if same_tag { "the program has the tag of the library" } else { "the program has another tag: not compared" }, 1);
    let top = TmpDir::new("C15");
    let dir = |c: u64, w: &str| {
        let d = top.0.join(format!("{w}{c}"));
        std::fs::create_dir_all(&d).unwrap();
        d
    };
    let drop_dir = |d: PathBuf| {
        let _ = std::fs::remove_dir_all(d);
    };

    ctx.run("options", ctx.pick(2500, 40_000), 0, |c, rng, obs| {
        let d = dir(c, "o");
        let (bytes, what) = input(rng);
        obs.input(&bytes);
        obs.nontrivial = true;
        obs.count(what, 1);
        let to_stdout = rng.chance(1, 3);
        let ext = *rng.pick(&["ogg", "oga", "ogx", "bin", "", "OGGX", "ogv", "opus", "ogg~"]);
        let guess = !to_stdout && ["ogg", "oga", "ogx"].contains(&ext);
        let (o, mut cfg, quiet) = options(rng, !guess);
        let mut o = o;
        if !same_tag && (1..4).contains(&cfg.vendor) {
            o.retain(|a| !a[0].starts_with("--vendor_string_action"));
            o.push(vec!["--vendor_string_action".into(), "copy".into()]);
            cfg.vendor = 0;
        }
        let in_name = *rng.pick(&["in.ogg", "an input", "in", "-.ogg", "in=1.ogg"]);
        let in_name = if in_name.starts_with('-') { format!("./{in_name}") } else { in_name.to_string() };
        let in_name = if rng.chance(1, 3) { d.join(&in_name).to_str().unwrap().to_string() } else { in_name };
        std::fs::write(d.join(&in_name), &bytes).unwrap();
        let out_name = if to_stdout {
            "-".to_string()
        } else {
            let n = *rng.pick(&NAMES);
            let n = if ext.is_empty() { n.to_string() } else { format!("{n}.{ext}") };
            if rng.chance(1, 3) {
                // something is there already
                let n2 = rng.below(200_000);
                std::fs::write(d.join(&n), rng.bytes(n2)).unwrap();
            }
            n
        };
        let a = args(&o, &[&in_name, &out_name]);
        let fail = |m: String| format!("optivorbis {}: {m}", a.join(" "));
        let epoch = (cfg.random && rng.chance(1, 2)).then(|| rng.u32().to_string());
        let mut call = Call::new(&d, a.clone());
        call.epoch = epoch.clone();
        let r = call.run();
        let want = if cfg.random { library(&cfg, epoch.as_deref(), &d.join(&in_name), &d.join("library")) } else { run::remux(&bytes, &cfg).map_err(|e| e.to_string()) };
        obs.evals += 1;
        obs.count(if to_stdout { "to standard output" } else if guess { "remuxer known from the output file" } else { "remuxer given" }, 1);
        obs.count(&format!("vendor string: {}", VENDORS[cfg.vendor as usize]), 1);
        match want {
            Err(e) => {
                obs.count("the library fails", 1);
                r.reported().map_err(|m| fail(format!("{m}, and the library fails: {e}"))).input(&bytes)?;
                if to_stdout && !cfg.random {
                    let mut part = vec![];
                    let _ = run::remux_io(&cfg.remuxer(), Cursor::new(&bytes), &mut part);
                    if !part.starts_with(&r.out) {
                        return Err(fail(format!("after the failure, standard output has {} bytes that are not of the output", r.out.len()))).input(&bytes);
                    }
                }
            }
            Ok(want) => {
                obs.count("the library succeeds", 1);
                if r.code != Some(0) {
                    return Err(fail(format!("the exit status is {:?}, and the library succeeds: {}", r.code, r.err))).input(&bytes);
                }
                let got = if to_stdout {
                    r.out.clone()
                } else {
                    std::fs::read(d.join(&out_name)).map_err(|e| fail(format!("no output: {e}"))).input(&bytes)?
                };
                let (g, w) = if cfg.random && epoch.is_none() {
                    if want.len() > 18 && first_serial(&got) == Some(cfg.offset) {
                        return Err(fail("the serial of the stream is not random".into())).input(&bytes);
                    }
                    (without_serials(&got).map_err(fail).input(&bytes)?, without_serials(&want).map_err(fail).input(&bytes)?)
                } else {
                    (got, want)
                };
                if g != w {
                    let at = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
                    return Err(fail(format!("the output is not that of the library with these settings, from byte {at} on: {} and {} bytes", g.len(), w.len()))).input(&bytes);
                }
                if std::fs::read(d.join(&in_name)).ok() != Some(bytes.clone()) {
                    return Err(fail("the input file has changed".into())).input(&bytes);
                }
                if quiet {
                    obs.count("quiet", 1);
                    if !r.err.is_empty() || !(to_stdout || r.out.is_empty()) {
                        return Err(fail(format!("quiet mode printed {:?} {:?}", String::from_utf8_lossy(&r.out), r.err))).input(&bytes);
                    }
                }
            }
        }
        drop_dir(d);
        Ok(())
    });

    ctx.run("output-faults", ctx.pick(700, 8000), 0, |c, rng, obs| {
        let d = dir(c, "f");
        let bytes = if rng.chance(1, 3) {
            let mut pr = Profile::random(rng);
            pr.max_packets = 300;
            pr.big = true;
            pr.extreme = false;
            pr.max_channels = 2;
            scen::random_single(rng, &pr, Gp::Valid).bytes
        } else {
            small_scenario(rng).bytes
        };
        obs.input(&bytes);
        obs.nontrivial = true;
        std::fs::write(d.join("in"), &bytes).unwrap();
        let (mut o, mut cfg, _) = options(rng, true);
        let epoch = "1700000000";
        if !same_tag {
            o.retain(|a| !a[0].starts_with("--vendor_string_action"));
            o.push(vec!["--vendor_string_action".into(), "copy".into()]);
            cfg.vendor = 0;
        }
        let len = match library(&cfg, Some(epoch), &d.join("in"), &d.join("library")) {
            Ok(b) => b.len() as u64,
            Err(e) => return Err(e).input(&bytes),
        };
        let call = |file: &str, out: Out, fsize: Option<u64>| {
            let mut call = Call::new(&d, args(&o, &["in", file]));
            call.epoch = Some(epoch.into());
            call.out = out;
            call.fsize = fsize;
            call.run()
        };
        let null = || Out::To(Stdio::null());
        let full = || Out::To(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap().into());
        let fail = |w: &str, m: String| format!("optivorbis {} ({len} bytes of output): {w}: {m}", args(&o, &[]).join(" "));
        // Full devices
        call("/dev/full", null(), None).reported().map_err(|m| fail("output file full", m)).input(&bytes)?;
        call("-", full(), None).reported().map_err(|m| fail("standard output full", m)).input(&bytes)?;
        obs.count("full devices", 2);
        // Nobody reads
        let (r, w) = std::io::pipe().unwrap();
        drop(r);
        call("-", Out::To(w.into()), None).reported().map_err(|m| fail("closed pipe", m)).input(&bytes)?;
        obs.count("closed pipes", 1);
        // The header cannot be printed: the output must be right anyway
        let r = call("headerless", full(), None);
        if r.code != Some(0) || std::fs::metadata(d.join("headerless")).map(|m| m.len()).ok() != Some(len) {
            return Err(fail("nothing can be printed to standard output, output to file", format!("exit status {:?}, {}", r.code, r.err))).input(&bytes);
        }
        obs.evals += 4;
        // Files that cannot become this large
        let mut at: Vec<u64> = vec![0, 1, len - 1, len, len + 1];
        for k in [8192, 4096, len / 8192 * 8192, (len.max(1) - 1) / 1024 * 1024] {
            at.push(k);
            at.push(k + 1);
        }
        at.push(rng.below(len as usize) as u64);
        rng.shuffle(&mut at);
        at.truncate(4);
        at.push(*rng.pick(&[len - 1, len - 1, len]));
        for n in at {
            let r = if rng.chance(1, 2) {
                call("limited", null(), Some(n))
            } else {
                let f = std::fs::File::create(d.join("limited")).unwrap();
                call("-", Out::To(f.into()), Some(n))
            };
            obs.evals += 1;
            let size = std::fs::metadata(d.join("limited")).map_or(0, |m| m.len());
            if n >= len {
                obs.count("enough space", 1);
                if r.code != Some(0) || size != len {
                    return Err(fail("with enough space", format!("exit status {:?}, {size} bytes written, {}", r.code, r.err))).input(&bytes);
                }
            } else {
                obs.count("no space after some bytes", 1);
                r.reported().map_err(|m| fail(&format!("{size} bytes written, and no space after {n}"), m)).input(&bytes)?;
            }
        }
        drop_dir(d);
        Ok(())
    });

    ctx.run("invalid", ctx.pick(1200, 10_000), 0, |c, rng, obs| {
        let d = dir(c, "i");
        let bytes = small_scenario(rng).bytes;
        std::fs::write(d.join("in"), &bytes).unwrap();
        std::fs::create_dir(d.join("folder")).unwrap();
        std::fs::create_dir(d.join("folder.ogg")).unwrap();
        std::fs::write(d.join("nothing"), b"").unwrap();
        let (mut o, _, quiet) = options(rng, true);
        let opt = |o: &mut Vec<Vec<String>>, rng: &mut Rng, name: &str, v: &str| {
            // in place of what is there
            let sub = v.split_once('=').map(|x| x.0.to_string());
            o.retain(|a| {
                let t = a.join("=");
                match &sub {
                    Some(s) => !t.contains(s.as_str()),
                    None => !t.starts_with(&format!("--{name}")),
                }
            });
            let at = rng.below(o.len() + 1);
            o.insert(at, if rng.chance(1, 2) { vec![format!("--{name}={v}")] } else { vec![format!("--{name}"), v.into()] });
        };
        let mut files: Vec<String> = vec!["in".into(), rng.pick(&["out.ogg", "out", "-"]).to_string()];
        let mut epoch = None;
        let what: &str = match rng.below(17) {
            0 => {
                let v = *rng.pick(&["none", "", "remove", "tag", "copyreplace"]);
                opt(&mut o, rng, "vendor_string_action", v);
                "vendor string action"
            }
            1 => {
                let v = *rng.pick(&["none", "", "replace", "empty", "deleteall"]);
                opt(&mut o, rng, "comment_fields_action", v);
                "comment fields action"
            }
            2 => {
                let n = *rng.pick(&["randomize_stream_serials", "ignore_start_sample_offset", "error_on_no_vorbis_streams", "verify_ogg_page_checksums"]);
                let v = *rng.pick(&["maybe", "", "2", "truefalse", "-", "nan"]);
                opt(&mut o, rng, "remuxer_option", &format!("{n}={v}"));
                "Boolean option value"
            }
            3 => {
                let v = *rng.pick(&["-1", "4294967296", "x", "", "1.5", "99999999999999999999", "true", "12z"]);
                opt(&mut o, rng, "remuxer_option", &format!("first_stream_serial_offset={v}"));
                "integer option value"
            }
            4 => {
                o.retain(|a| !(a[0].starts_with("-r") || a[0] == "--remuxer" || a[0].starts_with("--remuxer=")));
                let v = rng.pick(&["mp42ogg", "", "ogg", "ogg2mkv", "2ogg", "ogg2oggs"]);
                o.push(vec![format!("--remuxer={v}")]);
                "remuxer"
            }
            5 => {
                o.retain(|a| !(a[0].starts_with("-r") || a[0] == "--remuxer" || a[0].starts_with("--remuxer=")));
                files[1] = rng.pick(&["out", "out.mkv", "out.ogg.mp3", "-", "ogg", "out.og"]).to_string();
                "no remuxer and no known extension"
            }
            6 => {
                files[0] = rng.pick(&["missing", "missing.ogg", "in/in", "folder/in"]).to_string();
                "missing input file"
            }
            7 => {
                files[0] = "folder".into();
                "a folder as input"
            }
            8 => {
                files[0] = "nothing".into();
                "empty input"
            }
            9 => {
                files[1] = rng.pick(&["no/out.ogg", "in/out.ogg", "folder.ogg", "folder"]).to_string();
                "output file that cannot be created"
            }
            10 => {
                files = match rng.below(4) {
                    0 => vec![],
                    1 => vec!["in".into()],
                    2 => vec!["in".into(), "out.ogg".into(), "out2.ogg".into()],
                    _ => vec!["in".into(), "-".into(), "x".into(), "y".into()],
                };
                "number of files"
            }
            11 => {
                o.push(vec![rng.pick(&["--unknown", "-Z", "--vendor=copy", "--remuxer-option=a=b", "--quite"]).to_string()]);
                "unknown option"
            }
            12 => {
                // takes no value
                o.push(vec![rng.pick(&["--quiet=1", "--version=x"]).to_string()]);
                "value for a flag"
            }
            13 => {
                files = vec![];
                o.push(vec![rng.pick(&["--vendor_string_action", "--remuxer_option", "--comment_fields_action"]).to_string()]);
                "option without its value"
            }
            14 => {
                o.retain(|a| !a.join("=").contains("randomize_stream_serials"));
                epoch = Some(rng.pick(&["", "x", "1.5", "12 ", "0x10", "now"]).to_string());
                "SOURCE_DATE_EPOCH"
            }
            15 => {
                // cut inside the headers
                let cut = rng.range(1, 200.min(bytes.len() - 1));
                std::fs::write(d.join("in"), &bytes[..cut]).unwrap();
                match run::remux(&bytes[..cut], &Cfg { err_none: true, ..defaults() }) {
                    Err(Bad::Err(_)) => (),
                    _ => {
                        drop_dir(d);
                        return Ok(());
                    }
                }
                if o.iter().any(|a| a.join("=").contains("error_on_no")) {
                    drop_dir(d);
                    return Ok(());
                }
                "truncated input"
            }
            _ => {
                std::fs::write(d.join("in"), rng.bytes(5000)).unwrap();
                if o.iter().any(|a| a.join("=").contains("error_on_no")) {
                    drop_dir(d);
                    return Ok(());
                }
                "not Ogg"
            }
        };
        let a = args(&o, &files.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        obs.key = crate::rng::hash_bytes(a.join("\0").as_bytes());
        obs.nontrivial = true;
        obs.count(what, 1);
        let mut call = Call::new(&d, a.clone());
        call.epoch = epoch;
        let r = call.run();
        r.reported().map_err(|m| format!("optivorbis {}: {what}: {m}", a.join(" "))).input(&bytes)?;
        if quiet && !r.out.is_empty() && files.get(1).map(|s| s.as_str()) != Some("-") {
            return Err(format!("optivorbis {}: quiet mode printed {:?} in standard output", a.join(" "), String::from_utf8_lossy(&r.out))).input(&bytes);
        }
        drop_dir(d);
        Ok(())
    });

    // The output file is the input file, under any name
    ctx.run("same-file", ctx.pick(200, 3000), 0, |c, rng, obs| {
        let d = dir(c, "s");
        std::fs::create_dir(d.join("folder")).unwrap();
        let (bytes, _) = input(rng);
        obs.input(&bytes);
        obs.nontrivial = true;
        let f = d.join("in.ogg");
        std::fs::write(&f, &bytes).unwrap();
        let (o, mut cfg, _) = options(rng, true);
        cfg.random = false;
        let mut o: Vec<Vec<String>> = o.into_iter().filter(|a| !a.iter().any(|x| x.contains("vendor_string_action") || x.contains("randomize_stream_serials"))).collect();
        o.push(vec!["--vendor_string_action=copy".into()]);
        o.push(vec!["--remuxer_option=randomize_stream_serials=false".into()]);
        cfg.vendor = 0;
        let other = |rng: &mut Rng| -> (String, &'static str) {
            let n = rng.below(1000);
            let l = d.join(format!("link{n}.ogg"));
            let name = l.to_str().unwrap().to_string();
            match rng.below(6) {
                0 => ("in.ogg".into(), "the same name"),
                1 => ("./folder/..//in.ogg".into(), "another path"),
                2 => (f.to_str().unwrap().into(), "an absolute path"),
                3 => {
                    let _ = std::os::unix::fs::symlink("in.ogg", &l);
                    (name, "a symbolic link")
                }
                4 => {
                    let _ = std::os::unix::fs::symlink(&d, d.join(format!("f{n}")));
                    (format!("f{n}/in.ogg"), "a path through a symbolic link")
                }
                _ => {
                    let _ = std::fs::hard_link(&f, &l);
                    (format!("link{n}.ogg"), "a hard link")
                }
            }
        };
        let ((i, wi), (t, wt)) = (other(rng), other(rng));
        obs.count(&format!("to {wt}"), 1);
        let r = Call::new(&d, args(&o, &[&i, &t])).run();
        obs.evals += 1;
        let after = std::fs::read(&f).unwrap_or_default();
        let fail = |m: String| format!("optivorbis {} {i} {t} (from {wi} to {wt}): {m}", args(&o, &[]).join(" "));
        if after == bytes && r.code != Some(0) {
            r.reported().map_err(fail).input(&bytes)?;
        } else if run::remux(&bytes, &cfg).ok() != Some(after.clone()) || r.code != Some(0) {
            return Err(fail(format!("exit status {:?}, and the input file now has {} bytes, {} before", r.code, after.len(), bytes.len()))).input(&bytes);
        }
        drop_dir(d);
        Ok(())
    });
    ctx.run("input-kinds", ctx.pick(150, 2000), 0, |c, rng, obs| {
        // Input that may not support seeks: right, or reported
        let d = dir(c, "k");
        let bytes = small_scenario(rng).bytes;
        obs.input(&bytes);
        obs.nontrivial = true;
        std::fs::write(d.join("in"), &bytes).unwrap();
        std::os::unix::fs::symlink("in", d.join("link")).unwrap();
        let cfg = Cfg { vendor: 0, random: false, ..defaults() };
        let want = run::remux(&bytes, &cfg).map_err(|e| e.to_string()).input(&bytes)?;
        let o = vec![vec!["-r".to_string(), "ogg2ogg".into()], vec!["--vendor_string_action".into(), "copy".into()], vec!["--remuxer_option".into(), "randomize_stream_serials=false".into()]];
        let r = Call::new(&d, args(&o, &["link", "-"])).run();
        if r.code != Some(0) || r.out != want {
            return Err(format!("symbolic link as input: {:?}, {} bytes of {}, {}", r.code, r.out.len(), want.len(), r.err)).input(&bytes);
        }
        let mut call = Call::new(&d, args(&o, &["/dev/stdin", "-"]));
        call.stdin = std::fs::File::open(d.join("in")).unwrap().into();
        let r = call.run();
        if r.code != Some(0) || r.out != want {
            return Err(format!("file as standard input: {:?}, {} bytes of {}, {}", r.code, r.out.len(), want.len(), r.err)).input(&bytes);
        }
        let mut call = Call::new(&d, args(&o, &["/dev/stdin", "-"]));
        let (pr, pw) = std::io::pipe().unwrap();
        call.stdin = pr.into();
        let b = bytes.clone();
        let t = std::thread::spawn(move || {
            use std::io::Write;
            let mut pw = pw;
            let _ = pw.write_all(&b);
        });
        let r = call.run();
        let _ = t.join();
        obs.evals += 2;
        if r.code == Some(0) && r.out == want {
            obs.count("pipes read", 1);
        } else if r.code == Some(0) {
            return Err(format!("pipe as input: {} bytes written, {} expected", r.out.len(), want.len())).input(&bytes);
        } else {
            r.reported().map_err(|m| format!("pipe as input: {m}")).input(&bytes)?;
            obs.count("pipes refused", 1);
        }
        // pipe as output file
        let st = Command::new("mkfifo").arg(d.join("fifo")).status().unwrap();
        if st.success() {
            let got = std::fs::File::create(d.join("got")).unwrap();
            let mut cat = Command::new("timeout").args(["100", "cat"]).arg(d.join("fifo")).stdout(got).spawn().unwrap();
            let r = Call::new(&d, args(&o, &["in", "fifo"])).run();
            if r.code == Some(0) {
                let _ = cat.wait();
            } else {
                let _ = cat.kill();
                let _ = cat.wait();
            }
            let got = std::fs::read(d.join("got")).unwrap();
            if r.code != Some(0) || got != want {
                return Err(format!("pipe as output: {:?}, {} bytes of {}, {}", r.code, got.len(), want.len(), r.err)).input(&bytes);
            }
        }
        drop_dir(d);
        Ok(())
    });

    ctx.run("help", ctx.pick(60, 300), 0, |c, rng, obs| {
        let d = dir(c, "h");
        let mut o: Vec<Vec<String>> = if rng.chance(1, 2) { options(rng, false).0 } else { vec![] };
        let help = rng.chance(1, 2);
        o.push(vec![if help { *rng.pick(&["-h", "--help"]) } else { "--version" }.to_string()]);
        rng.shuffle(&mut o);
        let a = args(&o, &[]);
        obs.key = crate::rng::hash_bytes(a.join("\0").as_bytes());
        obs.nontrivial = true;
        obs.count(if help { "help" } else { "version" }, 1);
        let r = Call::new(&d, a.clone()).run();
        let text = String::from_utf8_lossy(&r.out).into_owned();
        if r.code != Some(0) {
            return Err(format!("optivorbis {}: exit status {:?} {}", a.join(" "), r.code, r.err).into());
        }
        if !text.contains(tag.trim()) || tag.trim().is_empty() {
            return Err(format!("optivorbis {}: no version in {text:?}", a.join(" ")).into());
        }
        if help {
            for n in ["--help", "--version", "--quiet", "--verbose", "--remuxer", "--vendor_string_action", "--comment_fields_action", "--remuxer_option"] {
                if !text.contains(n) {
                    return Err(format!("optivorbis {}: {n} is not in the help", a.join(" ")).into());
                }
            }
        }
        drop_dir(d);
        Ok(())
    });
    ctx.finish("fault_enumeration", "The built program run with random combinations of all its options, input files (valid, invalid, damaged, without Vorbis streams) and outputs, and its output, exit status and messages compared with those of the library with the settings these options stand for; then with the input file as output under other names and through links, full devices, closed pipes, file size limits around the buffer and output sizes, invalid option values, files that cannot be opened, and help and version requests. Distinct: by hash of the input file, or of the arguments.")
}
