pub mod driver;
pub mod elems;
pub mod model;
pub mod props;
pub use gsim_core::{heap, io, mem, rng, shared, sim};

fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("GSIM_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("GSIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
    }
}

fn main() {
    no_aslr();
    gsim_core::nursery::start(driver::child);
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => driver::check(driver::find(id)),
        (Some("replay"), Some(f)) => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay json");
            if v["instrumented"] == true && !driver::fine() {
                use std::os::unix::process::CommandExt;
                panic!("{}", std::process::Command::new(driver::fine_exe()).args(["replay", f]).env_remove("GSIM_REEXEC").exec());
            }
            if v["property"] == "C33" && !cfg!(feature = "py") {
                use std::os::unix::process::CommandExt;
                let py = std::env::current_exe().unwrap().with_file_name("gsim-py");
                panic!("{}", std::process::Command::new(py).args(["replay", f]).env_remove("GSIM_REEXEC").exec());
            }
            driver::init_single();
            let (ok, exact) = driver::replay_file(f, true);
            driver::done_single();
            if ok {
                println!("reproduced{}", if exact { " exactly" } else { " (event sequence differs)" });
                println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap(), f);
                1
            } else {
                println!("not reproduced");
                0
            }
        }
        (Some("seed"), Some(id)) => {
            // gsim seed ID RUNSEED: run one seed and show it
            let p = driver::find(id);
            driver::init_single();
            let seed: u64 = a[3].parse().unwrap();
            let spec = driver::spec_for(p, seed);
            println!("{}", spec);
            let r = driver::fork_run(p, &spec, 120);
            println!("{:?} steps {} switches {} preempt {} checks {} hash {:x} {:.3}s", r.out, r.steps, r.switches, r.preemptions, r.checks, r.hash, r.real_s);
            driver::done_single();
            0
        }
        (Some("some"), Some(id)) => {
            // gsim some ID N: run N seeds in this process, list what happens
            let p = driver::find(id);
            driver::init_single();
            let n: u64 = a[3].parse().unwrap();
            let mut by = std::collections::BTreeMap::<String, (u64, u64, f64, String)>::new();
            for k in 0..n {
                let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                let seed = driver::run_seed(base, p, k);
                let spec = driver::spec_for(p, seed);
                let r = driver::fork_run(p, &spec, 120);
                let (key, d) = match &r.out {
                    driver::Out::Viol(c, d) => (format!("VIOL {}", c), d.clone()),
                    driver::Out::Unclear(d) => ("unclear".to_string(), d.clone()),
                    o => (format!("{:?}", o), String::new()),
                };
                let e = by.entry(key).or_insert((0, seed, 0.0, d));
                e.0 += 1;
                e.2 += r.real_s;
            }
            for (k, v) in by {
                println!("{:6} x {}  (first seed {}, avg {:.4}s) {}", v.0, k, v.1, v.2 / v.0 as f64, v.3.chars().take(400).collect::<String>());
            }
            driver::done_single();
            0
        }
        (Some("same"), Some(id)) => {
            // gsim same ID N: run N seeds twice, list those that differ
            let p = driver::find(id);
            driver::init_single();
            let n: u64 = a[3].parse().unwrap();
            let mut bad = 0;
            for k in 0..n {
                let seed = driver::run_seed(1, p, k);
                let spec = driver::spec_for(p, seed);
                let (r, s) = (driver::fork_run(p, &spec, 120), driver::fork_run(p, &spec, 120));
                if r.hash != s.hash || r.out != s.out || r.decisions != s.decisions {
                    println!("{}: {:?} {:?}, {} {} steps, {} {} decisions", seed, r.out, s.out, r.steps, s.steps, r.decisions, s.decisions);
                    bad += 1;
                }
            }
            driver::done_single();
            println!("{} of {} differ", bad, n);
            0
        }
        (Some("list"), _) => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: gsim check ID | replay FILE | seed ID SEED | some ID N | list");
            2
        }
    };
    std::process::exit(code);
}
