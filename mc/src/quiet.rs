//! C33: a call does nothing but compute. The suites of other properties run once more in threads that may make no
//! system call but those for memory, waiting and random numbers; every other one is caught by a seccomp filter.
use crate::engine::*;
use crate::history;
use crate::lex::lex;
use crate::model::{hash_list, to_set};
use std::cell::Cell;
use std::sync::{Arc, OnceLock};

extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
}

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Program {
    len: u16,
    filter: *const Filter,
}

/// x86-64: memory, returns from handlers, waiting, random numbers, reading clocks, ends of threads and of the process.
const ALLOWED: &[u32] = &[9, 10, 11, 12, 15, 24, 25, 28, 39, 60, 131, 186, 202, 204, 228, 229, 231, 234, 273, 309, 318, 324, 334];
const NAMES: &[(i64, &str)] = &[(0, "read"), (1, "write"), (2, "open"), (3, "close"), (4, "stat"), (5, "fstat"), (7, "poll"), (13, "rt_sigaction"), (14, "rt_sigprocmask (new threads do, first)"), (16, "ioctl"), (20, "writev"), (35, "nanosleep"), (41, "socket"), (56, "clone"), (57, "fork"), (59, "execve"), (61, "wait4"), (62, "kill"), (72, "fcntl"), (79, "getcwd"), (80, "chdir"), (157, "prctl"), (201, "time"), (230, "clock_nanosleep"), (257, "openat"), (262, "newfstatat"), (302, "prlimit64"), (332, "statx"), (435, "clone3")];

thread_local! {
    static CAUGHT: Cell<i64> = const { Cell::new(-1) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static HOOK: Cell<u32> = const { Cell::new(0) };
}

extern "C" fn caught(_sig: i32, info: *const u8, context: *mut u8) {
    // SAFETY: the kernel's siginfo (si_syscall at 24) and ucontext (rax at 40 + 8 * 13).
    unsafe {
        let nr = i64::from(info.add(24).cast::<i32>().read());
        if CAUGHT.get() < 0 {
            CAUGHT.set(nr);
        }
        context.add(144).cast::<i64>().write(-1); // EPERM
    }
}

/// From here on this thread's system calls are watched.
fn enter() {
    if INSIDE.get() {
        return;
    }
    INSIDE.set(true);
    static HANDLER: OnceLock<()> = OnceLock::new();
    HANDLER.get_or_init(|| {
        let a = Action { handler: caught as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        // SAFETY: a plain SA_SIGINFO handler.
        assert_eq!(unsafe { sigaction(31, &a, std::ptr::null_mut()) }, 0, "sigaction");
    });
    let mut f = vec![
        Filter { code: 0x20, jt: 0, jf: 0, k: 4 },
        Filter { code: 0x15, jt: 1, jf: 0, k: 0xC000_003E },
        Filter { code: 6, jt: 0, jf: 0, k: 0x0003_0000 },
        Filter { code: 0x20, jt: 0, jf: 0, k: 0 },
    ];
    let n = ALLOWED.len();
    for (i, &nr) in ALLOWED.iter().enumerate() {
        f.push(Filter { code: 0x15, jt: (n - i) as u8, jf: 0, k: nr });
    }
    f.push(Filter { code: 6, jt: 0, jf: 0, k: 0x0003_0000 });
    f.push(Filter { code: 6, jt: 0, jf: 0, k: 0x7FFF_0000 });
    let p = Program { len: f.len() as u16, filter: f.as_ptr() };
    // SAFETY: a valid program; it applies to this thread only.
    unsafe {
        assert_eq!(prctl(38, 1, 0, 0, 0), 0, "no new privileges");
        assert_eq!(prctl(22, 2, std::ptr::from_ref(&p) as u64, 0, 0), 0, "seccomp");
    }
}

fn name(nr: i64) -> String {
    NAMES.iter().find(|n| n.0 == nr).map_or_else(|| format!("number {nr}"), |n| n.1.to_string())
}

/// Installed over the engine's hook: counts, so that one can see whether it is still there.
fn install_hook() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        let engine = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            HOOK.set(HOOK.get() + 1);
            engine(info);
        }));
    });
}
fn hook_is_there() -> bool {
    let before = HOOK.get();
    let _ = guard(|| panic!("hook"));
    HOOK.get() == before + 1
}

fn watched(prop: &str, s: Suite) -> Suite {
    let (name_, bound) = (format!("{prop} {}", s.name), s.bound.clone());
    let run = s.run;
    Suite::new(&name_, &format!("system calls watched: {bound}"), s.units as usize, move |u, ctx| {
        enter();
        CAUGHT.set(-1);
        // Whether the answers are right is the other property's.
        let _ = guard(|| run(u as u64, ctx));
        match CAUGHT.get() {
            -1 => {}
            nr => return Err(format!("a call of this unit makes the system call {}", name(nr))),
        }
        if (u % 64 == 0 || u < 64) && !hook_is_there() {
            return Err("after a call of this unit the caller's panic hook is gone".into());
        }
        Ok(())
    })
}

fn control() -> Suite {
    Suite::new("control", "a write, a look at a file, a new thread, a sleep: each is caught", 4, |u, ctx| {
        enter();
        ctx.step();
        CAUGHT.set(-1);
        match u {
            0 => {
                use std::io::Write;
                let _ = std::io::stderr().write_all(b"x");
            }
            1 => drop(std::fs::metadata("/")),
            2 => drop(std::thread::Builder::new().spawn(|| ())),
            _ => drop(guard(|| std::thread::sleep(std::time::Duration::from_nanos(1)))),
        }
        assert!(CAUGHT.get() >= 0, "control {u} of C33 is not caught");
        CAUGHT.set(-1);
        Ok(())
    })
}

/// `mc answers`: one line per call of the C18 alphabet and per probe of C30.
pub fn answers() {
    for c in history::alphabet() {
        println!("{}", c.answer());
    }
    for i in 0..crate::cut::PROBES {
        println!("{}", crate::cut::probe(i));
    }
    for v in unicode_intervals::UnicodeVersion::ALL.iter().map(Some).chain([None]) {
        for m in (0..30).map(|c| 1 << c).chain([0x3FFF_FFFF, 0x1F, 0x2AAA_AAAA]) {
            let q = v.map_or_else(unicode_intervals::query, |v| v.query()).include_categories(to_set(m));
            println!("{} {} {}", hash_list(&q.clone().intervals().unwrap_or_default()), q.clone().max_codepoint(255).include_characters("x").interval_set().map_or(0, |s| s.len()), q.min_codepoint(9).exclude_characters("y\u{3A9}").interval_set().map_or(0, |s| s.len()));
        }
    }
}

const USUAL: &[&str] = &["PATH", "HOME", "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_COLLATE", "TZ", "TERM", "USER", "SHELL", "PWD", "TMPDIR", "DEBUG", "VERBOSE", "NO_COLOR", "CI", "RUST_LOG", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK",
    "UNICODE_VERSION", "UNICODE_INTERVALS_VERSION", "UNICODE_INTERVALS", "UNICODE_DATA", "UCD_VERSION", "CARGO", "CARGO_PKG_VERSION", "CARGO_MANIFEST_DIR", "SOURCE_DATE_EPOCH", "MALLOC_ARENA_MAX", "XDG_CACHE_HOME"];
const VALUES: &[&str] = &["", "0", "1", "true", "false", "on", "all", "9.0.0", "17.0.0", "Lu", "L", "65", "1114111", "-1", "C", "POSIX", "tr_TR.UTF-8", "/", "/nonexistent", "debug", "\u{2603}"];

fn names() -> Vec<String> {
    let mut out: Vec<String> = USUAL.iter().map(ToString::to_string).collect();
    for s in &lex().strings {
        if !s.is_empty() && s.len() < 60 && !s.contains(['=', '\0']) {
            out.push(s.clone());
            out.push(s.to_uppercase());
        }
    }
    out.sort();
    out.dedup();
    out
}

fn run_answers(set: &dyn Fn(&mut std::process::Command)) -> Result<String, String> {
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    c.arg("answers").stdin(std::process::Stdio::null()).stderr(std::process::Stdio::piped());
    set(&mut c);
    let out = c.output().expect("a process");
    if !out.status.success() || !out.stderr.is_empty() {
        return Err(format!("{}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

fn surroundings() -> Vec<Suite> {
    static PLAIN: OnceLock<Result<String, String>> = OnceLock::new();
    let plain = || PLAIN.get_or_init(|| run_answers(&|c| {
        c.env_clear();
    })).clone();
    let names = Arc::new(names());
    let n = names.len();
    let same = move |how: String, got: Result<String, String>, ctx: &mut Ctx| {
        let want = plain().map_err(|e| format!("with an empty environment: {e}"))?;
        let got = got.map_err(|e| format!("{how}: {e}"))?;
        for (i, (a, b)) in want.lines().zip(got.lines()).enumerate() {
            ctx.step();
            if a != b {
                let text = history::alphabet().get(i).map_or_else(|| format!("probe {i}"), |c| format!("{c:?}"));
                return Err(format!("{how}: {text} answers {b}, not {a}"));
            }
        }
        if want.lines().count() != got.lines().count() {
            return Err(format!("{how}: {} answers instead of {}", got.lines().count(), want.lines().count()));
        }
        ctx.outcome(hash_words(how.bytes().map(u64::from)));
        Ok(())
    };
    let same2 = same;
    vec![
        Suite::new("environment", &format!("{n} names of variables (usual ones and every string of the sources) x {} values, all names set to the value at once", VALUES.len()), VALUES.len(), move |u, ctx| {
            let got = run_answers(&|c| {
                c.env_clear();
                for n in names.iter() {
                    c.env(n, VALUES[u]);
                }
            });
            same(format!("with every variable of the list set to {:?}", VALUES[u]), got, ctx)
        }),
        Suite::new("directories and names", "4 working directories, 4 names of the program", 8, move |u, ctx| {
            let how = ["/", "/tmp", "/proc", "/dev", "x", "", "UCD", "9.0.0"][u];
            let got = run_answers(&|c| {
                use std::os::unix::process::CommandExt;
                c.env_clear();
                if u < 4 {
                    c.current_dir(how);
                } else {
                    c.arg0(how);
                }
            });
            same2(format!("{} {how:?}", if u < 4 { "in the directory" } else { "with the program's name" }), got, ctx)
        }),
    ]
}

pub fn c33(thorough: bool, data: &str) -> Vec<Suite> {
    install_hook();
    // glibc's malloc reads /proc/sys/vm/overcommit_memory once, when the heap of a thread first shrinks: now, not later.
    std::thread::spawn(|| {
        for size in [20_000usize, 60_000, 100_000] {
            drop((0..400).map(|_| vec![1u8; size]).collect::<Vec<_>>());
        }
    })
    .join()
    .expect("thread");
    // Processes are started before any thread is watched: these come first.
    let mut out = surroundings();
    out.push(control());
    let props: &[&str] = if thorough { &["C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C23", "C29"] } else { &["C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C29"] };
    for p in props {
        #[cfg(not(feature = "internals"))]
        if *p == "C23" {
            continue;
        }
        out.extend(crate::suites(p, false, data).into_iter().map(|s| watched(p, s)));
    }
    out
}
