//! Deterministic simulation of mollusc: see /verif/DESIGN.md.

mod corpus;
mod cross;
mod dbg;
mod engine;
mod faults;
mod gen;
mod props;
mod refdec;
mod refdl;
mod refmap;
mod rng;
mod seams;
mod shrink;
mod writer;

#[global_allocator]
static A: seams::SimAlloc = seams::SimAlloc;
static LOGGER: seams::SimLog = seams::SimLog;

macro_rules! dispatch {
    ($id:expr, $f:ident $(, $a:expr)*) => {
        match $id {
            "C01" => engine::$f::<props::stream::C01>($($a),*),
            "C02" => engine::$f::<props::bitcode::C02>($($a),*),
            "C06" => engine::$f::<props::bitcode::C06>($($a),*),
            "C11" => engine::$f::<props::bitcode::C11>($($a),*),
            "C13" => engine::$f::<props::bitcode::C13>($($a),*),
            "C14" => engine::$f::<props::bitcode::C14>($($a),*),
            "C03" => engine::$f::<props::stream::C03>($($a),*),
            "C04" => engine::$f::<props::stream::C04>($($a),*),
            "C05" => engine::$f::<props::stream::C05>($($a),*),
            "C07" => engine::$f::<props::stream::C07>($($a),*),
            "C10" => engine::$f::<props::container::C10>($($a),*),
            "C09" => engine::$f::<props::sched::C09>($($a),*),
            "C19" => engine::$f::<props::report::C19>($($a),*),
            "C08" => engine::$f::<props::cursor::C08>($($a),*),
            "C12" => engine::$f::<props::stream::C12>($($a),*),
            x => { eprintln!("unknown property {x}"); 2 }
        }
    };
}

fn no_aslr() {
    // Addresses are one more thing a run must not depend on; keep them fixed for replays.
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_ASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("SIM_ASLR", "off");
                use std::os::unix::process::CommandExt;
                if let Ok(exe) = std::env::current_exe() {
                    let _ = std::process::Command::new(exe)
                        .args(std::env::args_os().skip(1))
                        .exec();
                }
            }
        }
    }
}

fn main() {
    no_aslr();
    seams::install_panic_hook();
    log::set_logger(&LOGGER).expect("logger");
    seams::set_log(false);
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::var("SIM_DIR").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args[2].as_str();
            let dir = dir.as_str();
            dispatch!(id, check, seed, &tier, dir)
        }
        Some("replay") => {
            let path = args[2].as_str();
            let rp: engine::Replay =
                serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
                    .expect("replay file");
            dispatch!(rp.property.as_str(), replay, &rp, path)
        }
        Some("traces") => {
            // sim traces ID lo hi: one trace hash per run, for determinism comparisons.
            let id = args[2].as_str();
            let lo: u64 = args[3].parse().unwrap();
            let hi: u64 = args[4].parse().unwrap();
            dispatch!(id, traces, seed, lo, hi)
        }
        // Streams with what they contain, and a file's verdicts: for tools/crosscheck.py.
        Some("emit") => cross::emit_files(
            seed,
            args[2].parse().unwrap(),
            args[3].parse().unwrap(),
            &args[4],
        ),
        Some("corpus") => {
            println!("{:?}", corpus::exact());
            !corpus::exact().iter().all(|x| *x) as i32
        }
        Some("huge") => props::mapping::huge_times(seed),
        Some("file") => cross::file(&args[2]),
        _ => {
            eprintln!(
                "usage: sim check ID | replay FILE | traces ID LO HI | emit LO HI DIR | file F"
            );
            2
        }
    };
    std::process::exit(code);
}
