#[macro_use]
mod engine;
mod db;
mod gen;
mod model;
mod vals;
mod world;
mod obs;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p07;
mod p08;
mod ednval;
mod script;
mod query;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod p27;
mod p28;
mod p29;

use engine::*;

fn props() -> Vec<&'static Prop> {
    vec![
        &p01::PROP,
        &p02::PROP,
        &p02::P06,
        &p02::P09,
        &p03::PROP,
        &p03::P26,
        &p04::PROP,
        &p05::PROP,
        &p07::PROP,
        &p08::PROP,
        &p10::PROP,
        &p11::PROP,
        &p12::PROP,
        &p13::PROP,
        &p14::PROP,
        &p15::PROP,
        &p16::PROP,
        &p17::PROP,
        &p18::PROP,
        &p19::PROP,
        &p20::PROP,
        &p21::PROP,
        &p22::PROP,
        &p23::PROP,
        &p24::PROP,
        &p25::PROP,
        &p27::PROP,
        &p28::PROP,
        &p29::PROP,
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
    install_panic_hook();
    // SQLite's memory accounting takes a process-wide lock on every allocation.
    unsafe {
        rusqlite::ffi::sqlite3_config(rusqlite::ffi::SQLITE_CONFIG_MEMSTATUS, 0 as libc::c_int);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let cmd = args.get(1).map(|s| s.as_str());
    let find = |id: Option<&String>| props().into_iter().find(|p| Some(p.id) == id.map(|s| s.as_str()));
    let cfg = |tier: Option<&String>| RunCfg {
        seed,
        thorough: tier.map(|s| s == "thorough").unwrap_or(false),
        verif: verif.clone(),
        cases: std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()),
        threads: std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
    };
    let code = match cmd {
        Some("replay") => replay_file(&props(), &args[2], &mut Out::capture()),
        Some("repl") => mentat_cli::run(),
        Some("script") => {
            script::run(args.get(2).map_or("", |s| s.as_str()));
            0
        }
        Some("one") => match find(args.get(2)) {
            Some(p) => {
                Out::capture();
                run_one(p, &cfg(args.get(3)), args[4].parse().unwrap())
            }
            None => 2,
        },
        Some(_) => match find(args.get(1)) {
            Some(p) => {
                let cfg = cfg(args.get(2));
                if std::env::var("VH_CHILD").is_ok() {
                    run_prop(p, &cfg, &mut Out::capture())
                } else {
                    supervise(p, &cfg, &args)
                }
            }
            None => {
                eprintln!("unknown property {}", args[1]);
                2
            }
        },
        None => {
            eprintln!("usage: vh PROPERTY [quick|thorough] | vh replay FILE");
            2
        }
    };
    std::process::exit(code);
}
