//! Cases for Miri: inputs of a few hundred bytes, with what the library does with them natively.
use crate::gen::{self, Profile};
use crate::rng::Rng;
use crate::run::{self, Bad, Cfg};
use crate::scen::{self, Gp};
use crate::{c_robust, mutate, ogg};

/// A stream of few codebook entries and bytes
fn tiny(rng: &mut Rng) -> gen::VStream {
    loop {
        let mut pr = Profile::random(rng);
        pr.extreme = false;
        pr.big = false;
        pr.max_channels = 3;
        pr.max_packets = *rng.pick(&[0, 1, 2, 3, 4]);
        let vs = gen::gen_stream(rng, &pr);
        let bytes: usize = vs.packets().iter().map(|p| p.len()).sum();
        let entries: usize = vs.setup.books.iter().map(|b| b.lens.len()).sum();
        if bytes < 350 && entries < 200 {
            return vs;
        }
    }
}
fn input(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0..=2 => ogg::join(&mutate::mux(&tiny(rng).packets(), rng)),
        3 => {
            let v = vec![tiny(rng), tiny(rng)];
            let f = rng.below(2);
            scen::chain(v, f, Gp::Valid, rng).bytes
        }
        4 | 5 => {
            let mut pk = tiny(rng).packets();
            c_robust::damage_packets(&mut pk, rng);
            ogg::join(&mutate::mux(&pk, rng))
        }
        6 => {
            let mut p = mutate::mux(&tiny(rng).packets(), rng);
            mutate::pages(&mut p, rng);
            ogg::join(&p)
        }
        _ => {
            let mut b = ogg::join(&mutate::mux(&tiny(rng).packets(), rng));
            let other = ogg::join(&mutate::mux(&tiny(rng).packets(), rng));
            mutate::bytes(&mut b, rng, &other);
            b
        }
    }
}
/// PROPERTY FOLDER NUMBER SEED: writes N.case and N.want files
pub fn helper(a: &[String]) -> i32 {
    let (dir, n, seed): (_, u64, u64) = (std::path::Path::new(&a[1]), a[2].parse().unwrap(), a[3].parse().unwrap());
    for k in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k << 32).wrapping_add(a[0].len() as u64 + a[0].as_bytes()[2] as u64));
        let b = loop {
            let b = if a[0] == "C11" { ogg::join(&mutate::mux(&tiny(&mut rng).packets(), &mut rng)) } else { input(&mut rng) };
            if b.len() < 1500 {
                break b;
            }
        };
        let threads = if a[0] == "C11" { rng.range(2, 3) } else { 0 };
        let cfg = Cfg { vendor: rng.below(5) as u8, fields: rng.below(2) as u8, random: rng.chance(1, 4), ignore: rng.chance(1, 2), verify: rng.chance(1, 2), ..Cfg::default() };
        let mut case = vec![threads as u8, cfg.vendor, cfg.fields, cfg.random as u8, cfg.ignore as u8, cfg.verify as u8];
        case.extend(&b);
        let want = match run::remux(&b, &cfg) {
            Ok(o) if cfg.random => format!("random {}", o.len()),
            Ok(o) => format!("ok {}", o.iter().map(|b| format!("{b:02x}")).collect::<String>()),
            Err(Bad::Err(_)) => "err".into(),
            Err(Bad::Panic(_)) => "panic".into(),
        };
        if std::fs::write(dir.join(format!("{k}.case")), case).is_err() || std::fs::write(dir.join(format!("{k}.want")), want).is_err() {
            return 2;
        }
    }
    0
}
