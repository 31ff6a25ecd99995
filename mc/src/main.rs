use mc::engine::*;
use mc::{history, json, report_hang_and_exit, suites, OUT};
use std::fmt::Write as _;
use std::time::Duration;

#[global_allocator]
static COUNTING: mc::memory::Counting = mc::memory::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match a.get(1).map(String::as_str) {
        // mc run PROP TIER DATA OUT SLOTS THREADS
        Some("run") => {
            let (prop, tier, data, out) = (&a[2], &a[3], &a[4], &a[5]);
            let threads: usize = a[7].parse().expect("threads");
            let _ = OUT.set(out.clone());
            let suites = suites(prop, tier == "thorough", data);
            let slots = map_slots(Some(&a[6]), threads);
            let stall = Duration::from_secs(if tier == "thorough" { 120 } else { 60 });
            match explore(&suites, threads, slots, stall) {
                Outcome::Hang(s, u) => report_hang_and_exit(&suites, s, u),
                Outcome::Done(st, f) => {
                    let mut o = String::new();
                    let _ = write!(
                        o,
                        "{{\"result\":\"{}\",\"states\":{},\"states_capped\":{},\"transitions\":{},\"units\":{},\"suites\":[",
                        if f.is_some() { "fail" } else { "ok" },
                        st.states,
                        st.capped,
                        st.transitions,
                        st.units
                    );
                    for (i, (n, b, u, t)) in st.per_suite.iter().enumerate() {
                        let _ = write!(o, "{}{{\"name\":{},\"bound\":{},\"units\":{u},\"steps\":{t}}}", if i > 0 { "," } else { "" }, json(n), json(b));
                    }
                    o.push_str("],\"samples\":[");
                    for (i, s) in st.samples.iter().take(24).enumerate() {
                        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json(s));
                    }
                    o.push(']');
                    if let Some(f) = &f {
                        let _ = write!(o, ",\"suite\":{},\"unit\":{},\"message\":{}", json(&suites[f.suite].name), f.unit, json(&f.message));
                    }
                    o.push('}');
                    std::fs::write(out, o).expect("write result");
                    // Fast exit: dropping gigabytes of model is of no use.
                    std::process::exit(i32::from(f.is_some()));
                }
            }
        }
        // mc replay PROP TIER DATA SUITE UNIT
        Some("replay") => {
            let all = suites(&a[2], a[3] == "thorough", &a[4]);
            let Some(s) = all.iter().find(|s| s.name == a[5]) else {
                eprintln!("no suite {}", a[5]);
                std::process::exit(2);
            };
            // In a thread of its own, which some suites take rights away from.
            let unit = a[6].parse().expect("unit");
            let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || replay(s, unit)).expect("thread").join().expect("replay"));
            match r {
                Ok(()) => println!("the unit passes"),
                Err(m) => {
                    println!("{m}");
                    std::process::exit(1);
                }
            }
        }
        // mc suites PROP TIER DATA
        Some("suites") => {
            for s in suites(&a[2], a[3] == "thorough", &a[4]) {
                println!("{} ({} units): {}", s.name, s.units, s.bound);
            }
        }
        // mc answer INDEX: one call of the C18 alphabet, first thing in this process
        Some("answer") => {
            let i: usize = a[2].parse().expect("index");
            println!("{}", history::alphabet()[i].answer());
        }
        // mc cold: histories, each in a fork of a process that has made no call
        Some("cold") => history::cold(),
        Some("coldcut") => mc::cut::cold(),
        Some("answers") => mc::quiet::answers(),
        Some("life") => mc::life::serve(),
        // mc serve: answers of the core to the requests on standard input
        Some("serve") => mc::serve::serve(),
        _ => {
            eprintln!("usage: mc run|replay|suites|answer ...");
            std::process::exit(2);
        }
    }
}
