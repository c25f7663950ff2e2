//! C13: documented defects are repaired.
use crate::audio::{self, End};
use crate::c_stream;
use crate::ctx::*;
use crate::gen::{self, Profile, VStream};
use crate::ogg;
use crate::rng::Rng;
use crate::run::{self, Cfg};
use crate::scen::{self, Gp, SStream};
use crate::setup::*;

/// The same audio, with defects. Returns the names of the defects.
fn spoil(vs: &VStream, cut: bool, rng: &mut Rng) -> (VStream, Vec<&'static str>) {
    let mut d = vs.clone();
    let mut names: Vec<&'static str> = vec![];
    let p = rng.range(1, 9);
    macro_rules! on {
        ($name:expr) => {{
            let b = rng.chance(p, 20);
            if b {
                names.push($name);
            }
            b
        }};
    }
    let mut st = vs.style.clone();
    st.bad_sync = on!("codebook sync pattern");
    st.bad_tdt = on!("time domain transform");
    st.bad_window = on!("window type");
    st.bad_transform = on!("transform type");
    st.bad_reserved = on!("mapping reserved bits");
    st.bad_framing = on!("setup framing bit");
    if on!("setup trailing bytes") {
        st.trailing = *rng.pick(&[1usize, 2, 3, 10, 255, 5000]);
    }
    d.setup_p = d.setup.write(d.ident.channels, &st);
    if on!("identification framing byte") {
        d.ident_p[29] = *rng.pick(&[0u8, 2, 0xfe, 0xff, 0x80]);
    }
    if on!("identification trailing bytes") {
        let n = *rng.pick(&[1usize, 2, 10, 225, 300]);
        let b = rng.bytes(n);
        d.ident_p.extend(b);
    }
    let vlen = u32::from_le_bytes(d.comment_p[7..11].try_into().unwrap()) as usize;
    if on!("comment framing byte") {
        *d.comment_p.last_mut().unwrap() = *rng.pick(&[0u8, 2, 0xfe, 0xff, 0x80]);
    }
    if on!("comment trailing bytes") {
        let n = *rng.pick(&[1usize, 2, 10, 225, 3000]);
        let b = if rng.chance(1, 3) { crate::c_stream::more_comments(rng, *d.comment_p.last().unwrap() == 1) } else { rng.bytes(n) };
        d.comment_p.extend(b);
    } else if on!("comment truncation") {
        let n = rng.range(11 + vlen, d.comment_p.len() - 1);
        d.comment_p.truncate(n);
    }
    if on!("audio padding") {
        for a in &mut d.audio {
            if a.dec.end == End::Complete && rng.chance(1, 2) {
                let n = *rng.pick(&[1usize, 1, 2, 9, 300]);
                let b = if rng.chance(1, 2) { vec![0; n] } else { rng.bytes(n) };
                a.bytes.extend(b);
            }
        }
    }
    if on!("empty audio packets") {
        let last = d.audio.iter().rposition(|a| !a.dec.discarded());
        for _ in 0..rng.range(1, 4) {
            let max = if cut { last.unwrap_or(0) } else { d.audio.len() };
            let at = rng.below(max + 1);
            let dec = audio::decode(&d.ident, &d.setup, &d.codes, &[]).unwrap();
            d.audio.insert(at, gen::APacket { bytes: vec![], dec });
        }
    }
    (d, names)
}
/// The stream without repairable defects: what is expected to give the same output
fn clean_of(d: &VStream, vs: &VStream) -> VStream {
    let mut c = vs.clone();
    let (v, f) = Comments::parse_prefix(&d.comment_p);
    c.comments = Comments { vendor: v.unwrap_or_default(), fields: f };
    c.comment_p = c.comments.write();
    c
}
fn with_cut(s: &mut SStream, cut: i64) {
    s.pages.last_mut().unwrap().gp -= cut;
    s.cut = cut;
}

fn repair_case(vss: &[VStream], rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = vss.len();
    let mut cfg = Cfg::random(rng);
    cfg.verify = rng.chance(1, 2);
    let serials = scen::new_serials(rng, n);
    let mut clean = vec![];
    let mut dirty = vec![];
    let mut all: Vec<String> = vec![];
    for (i, vs) in vss.iter().enumerate() {
        let bs: Vec<u16> = vs.kept().iter().map(|a| a.dec.blocksize.unwrap()).collect();
        let c = scen::calc(&bs);
        let k = bs.len();
        let cut = if k > 1 && !vs.audio.last().unwrap().dec.discarded() && rng.chance(1, 2) {
            rng.below((c[k - 1] - c[k - 2]) as usize) as i64
        } else {
            0
        };
        let (dvs, mut names) = spoil(vs, cut > 0, rng);
        let mut cs = scen::place(clean_of(&dvs, vs), serials[i], Gp::Plain, ogg::random_paging(rng), true, rng);
        with_cut(&mut cs, cut);
        let mut eos = true;
        if i + 1 == n && rng.chance(1, 4) {
            eos = false;
            names.push("missing end of stream flag");
        }
        // A page of its own for the first packets does not matter without start offset
        let mut ds = scen::place(dvs, serials[i], Gp::Plain, ogg::random_paging(rng), eos, rng);
        with_cut(&mut ds, cut);
        let (mc, mi) = (cs.gp_model(false), cs.gp_model(cfg.ignore));
        let fits = |s: &SStream| {
            let (d, e) = (s.gp_model(false), s.gp_model(cfg.ignore));
            d.offset == 0 && d.calc == mc.calc && d.last == mc.last && e.last == mi.last
        };
        if mc.offset != 0 || !fits(&ds) {
            return Err(format!("harness: the clean stream has offset {} or the model disagrees", mc.offset).into());
        }
        if rng.chance(1, 2) {
            let mut t = ds.clone();
            let share = rng.range(1, 3);
            let mut changed = 0;
            for p in &mut t.pages {
                if p.completes() && rng.chance(share, 4) {
                    let old = p.gp;
                    p.gp = match rng.below(7) {
                        0 => 0,
                        1 => -1,
                        2 => p.gp.wrapping_add(rng.range(1, 5000) as i64),
                        3 => p.gp.wrapping_sub(rng.range(1, 5000) as i64),
                        4 => i64::MAX,
                        5 => i64::MIN,
                        _ => rng.next() as i64,
                    };
                    changed += (p.gp != old) as usize;
                }
            }
            if changed > 0 && fits(&t) {
                names.push("granule positions");
                ds = t;
            } else if changed > 0 {
                // Some positions have a meaning: change fewer
                for _ in 0..4 {
                    let mut t = ds.clone();
                    let k = rng.below(t.pages.len());
                    if !t.pages[k].completes() {
                        continue;
                    }
                    t.pages[k].gp = rng.next() as i64;
                    if fits(&t) {
                        ds = t;
                        names.push("single granule position");
                    }
                }
            }
        }
        for x in &names {
            obs.count(&format!("defect: {x}"), 1);
        }
        all.push(names.join(", "));
        clean.push(cs);
        dirty.push(ds);
    }
    let cb: Vec<u8> = clean.iter().flat_map(|s| ogg::join(&s.pages)).collect();
    let db: Vec<u8> = dirty.iter().flat_map(|s| ogg::join(&s.pages)).collect();
    obs.input(&db);
    obs.nontrivial = all.iter().any(|x| !x.is_empty());
    obs.sample = Some(format!("{} streams with [{}]", n, all.join("] [")));
    obs.max("defects in a stream", all.iter().map(|x| x.split(", ").filter(|x| !x.is_empty()).count() as u64).max().unwrap_or(0));
    let want = run::remux(&cb, &cfg).map_err(|e| format!("clean stream: {e}")).input(&cb)?;
    let got = run::remux(&db, &cfg).map_err(|e| format!("defects [{}]: {e}", all.join("] ["))).input(&db)?;
    obs.evals += 1;
    if got != want {
        return Err(format!(
            "defects [{}]: the output has {} bytes and differs at byte {} from that of the same streams without defects, {} bytes",
            all.join("] ["),
            got.len(),
            got.iter().zip(&want).take_while(|x| x.0 == x.1).count(),
            want.len()
        ))
        .input(&db);
    }
    let ls = scen::container(&got, obs, &|_| 1).input(&db)?;
    if ls.len() != n {
        return Err(format!("{n} streams became {}", ls.len())).input(&db);
    }
    for (s, l) in clean.iter().zip(&ls) {
        scen::headers(&s.vs, l).input(&db)?;
        scen::comments(&s.vs, l, &cfg).input(&db)?;
        scen::granules(s, l, cfg.ignore, obs).input(&db)?;
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) -> i32 {
    ctx.run("defects", ctx.pick(6000, 150_000), 0, |_, rng, obs| {
        let n = *rng.pick(&[1usize, 1, 1, 2]);
        let vss: Vec<VStream> = (0..n)
            .map(|_| {
                let mut pr = Profile::random(rng);
                pr.padded = false;
                pr.empty = false;
                if rng.chance(1, 2) {
                    pr.truncated = false;
                }
                gen::gen_stream(rng, &pr)
            })
            .collect();
        repair_case(&vss, rng, obs)
    });
    // Each defect alone, on the same kind of streams
    let fx: Vec<VStream> = c_stream::fixtures()
        .iter()
        .filter_map(|f| c_stream::fixture_scenario(&f.1))
        .flat_map(|s| s.streams)
        .map(|s| s.vs)
        .filter(|v| v.setup_p == v.setup.write(v.ident.channels, &Default::default()) && Comments::parse_strict(&v.comment_p).is_ok() && v.audio.iter().all(|a| !a.bytes.is_empty()))
        .collect();
    ctx.add("fixture streams used", fx.len() as u64);
    ctx.run("fixtures", fx.len() as u64 * ctx.pick(4, 40), 0, |c, rng, obs| repair_case(&fx[c as usize % fx.len()..][..1], rng, obs));
    // A residue end before its begin: an empty residue
    ctx.run("end-before-begin", ctx.pick(2500, 60_000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.truncated = rng.chance(1, 6);
        let mut vs = loop {
            let mut vs = gen::gen_stream(rng, &Profile { max_packets: 0, ..pr.clone() });
            let mut any = false;
            for r in &mut vs.setup.residues {
                if rng.chance(2, 3) {
                    let (a, b) = match rng.below(4) {
                        0 => (r.begin.max(1), 0),
                        1 => (0xff_ffff, rng.below(0xff_ffff) as u32),
                        2 => {
                            let e = rng.below(100) as u32;
                            (e + 1, e)
                        }
                        _ => {
                            let b = rng.range(1, 9000) as u32;
                            (b, rng.below(b as usize) as u32)
                        }
                    };
                    r.begin = a;
                    r.end = b;
                    any = true;
                }
            }
            if !any {
                continue;
            }
            vs.setup_p = vs.setup.write(vs.ident.channels, &vs.style);
            let n = rng.range(1, pr.max_packets.max(1));
            if gen::add_packets(rng, &mut vs, &pr, n).is_some() {
                break vs;
            }
        };
        if rng.chance(1, 3) {
            let (d, _) = spoil(&vs, false, rng);
            vs.setup_p = d.setup_p;
        }
        let sc = scen::single(vs, Gp::Plain, rng);
        let known = ctx.known.iter().any(|k| k.1.starts_with("padding-decodes"));
        c_stream::each(&sc, &Cfg::random(rng), obs, |k, ls, obs| {
            let vs = &sc.streams[k].vs;
            scen::headers(vs, ls)?;
            let o = scen::decode_headers(ls)?;
            // What a truncated packet decodes to is a listed finding of C01
            let mut o2 = Obs::default();
            scen::losslessness(vs, &o, known, &mut o2)?;
            scen::optimality(vs, &o, obs)?;
            obs.count("empty residues", vs.setup.residues.iter().filter(|r| r.end < r.begin).count() as u64);
            Ok(())
        })
    });
    ctx.finish("exploration", "Random valid streams and repository fixtures, without defects and with a random set of the defects that the documentation says are repaired, with different pagings: both must be accepted and give the same output bytes, which the independent container, header, comment and granule position oracles check too. Streams with residues that end before they begin are compared by decoding. Non-trivial: at least one defect; distinct: by hash of the defective input file.")
}
