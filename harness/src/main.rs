mod audio;
mod bits;
mod bp;
mod c_bits;
mod c_cli;
mod c_env;
mod c_mangle;
mod c_mem;
mod c_miri;
mod c_refuse;
mod c_repair;
mod c_robust;
mod c_stream;
mod c_wasm;
mod ctx;
mod gen;
mod huff;
mod mem;
mod mutate;
mod ogg;
mod pcm;
mod rng;
mod run;
mod scen;
mod setup;
mod sup;

use ctx::{Ctx, Tier};

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    std::panic::set_hook(Box::new(|i| {
        let mut s = i.to_string();
        // Which code is to blame for panics in libraries
        let at = i.location().map(|l| l.file()).unwrap_or("");
        if at.starts_with('/') && !at.contains("/repo/packages/") && !at.contains("lewton") {
            let b = std::backtrace::Backtrace::force_capture().to_string();
            if let Some(f) = b.lines().find(|l| l.contains("/repo/packages/")) {
                s += &format!(" (called {})", f.trim());
            }
        }
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("{s}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = run::LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
    let prop = a.first().cloned().unwrap_or_default();
    if prop == "miri-cases" {
        std::process::exit(c_miri::helper(&a[1..]));
    }
    if prop == "helper" {
        std::process::exit(c_env::helper(&a[1..]));
    }
    if !sup::is_child() {
        std::process::exit(sup::supervise(&prop));
    }
    let only = (a.get(1).map(|s| s.as_str()) == Some("replay")).then(|| (a[2].clone(), a[3].parse().unwrap()));
    run::install_log();
    let ctx = Ctx::new(&prop, seed, tier, only);
    let r = match prop.as_str() {
        "C01" => c_stream::c01(&ctx),
        "C02" => c_stream::c02(&ctx),
        "C03" => c_stream::c03(&ctx),
        "C04" => c_stream::c04(&ctx),
        "C05" => c_stream::c05(&ctx),
        "C06" => c_stream::c06(&ctx),
        "C07" => c_robust::c07(&ctx),
        "C08" => c_env::c08(&ctx),
        "C09" => c_env::c09(&ctx),
        "C10" => c_env::c10(&ctx),
        "C11" => c_env::c11(&ctx),
        "C12" => c_bits::c12(&ctx),
        "C13" => c_repair::c13(&ctx),
        "C14" => c_refuse::c14(&ctx),
        "C15" => c_cli::c15(&ctx),
        "C16" => c_mangle::c16(&ctx),
        "C17" => c_mangle::c17(&ctx),
        "C18" => c_wasm::c18(&ctx),
        "C20" => c_mem::c20(&ctx),
        _ => {
            eprintln!("usage: vh PROPERTY [replay WORKLOAD CASE]");
            2
        }
    };
    std::process::exit(r);
}
