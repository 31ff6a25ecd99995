//! C32: the library answers alike at every moment of the life of a process and of its threads.
use crate::cut::{cuts, probe, subject, Act, Trap, GO, HELD, PROBES};
use crate::engine::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};

const PHASES: &[&str] = &[
    "in the main thread",
    "in another thread",
    "in another thread, after calls in the main one",
    "while a thread ends, in the destructor of a thread-local value made before its first call",
    "while a thread ends, in the destructor of a thread-local value made after its first call",
    "while the process ends, in the destructor of a thread-local value of the main thread made before the first call",
    "while the process ends, in the destructor of a thread-local value of the main thread made after the first call",
    "while the process ends, in a function registered with atexit before the first call",
    "while the process ends, in a function registered with atexit after the first call",
    "in a destructor, while a panic unwinds",
    "in a panic hook",
    "in a forked child",
    "in a child forked from another thread",
    "in a thread with a stack of 256 KiB",
    "after standard input, output and error are closed",
    "in a thread, while the main thread ends",
    "in a thread started by the destructor of a thread-local value",
    "in a thread of a forked child",
];
const HOLDS: &[&str] = &["in the main thread", "in a third thread", "in a child forked meanwhile", "in a thread of a child forked meanwhile"];
const NONE: usize = 99;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn exit(code: i32) -> !;
    fn atexit(f: extern "C" fn()) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn close(fd: i32) -> i32;
}

static WANT: OnceLock<Vec<u64>> = OnceLock::new();
static ROT: AtomicI32 = AtomicI32::new(0);
static CODE: AtomicI32 = AtomicI32::new(77);

/// 0, or 1 + the probe that answers differently than in a fresh process.
fn check() -> i32 {
    let (want, rot) = (WANT.get().expect("answers"), ROT.load(SeqCst) as usize);
    for j in 0..PROBES {
        let i = (rot + j) % PROBES;
        if guard(|| probe(i)) != Ok(want[i]) {
            return 1 + i as i32;
        }
    }
    0
}

struct AtEnd(fn());
impl Drop for AtEnd {
    fn drop(&mut self) {
        (self.0)();
    }
}
thread_local! {
    static END: RefCell<Option<AtEnd>> = const { RefCell::new(None) };
}
fn at_end(f: fn()) {
    END.with(|e| *e.borrow_mut() = Some(AtEnd(f)));
}
fn note() {
    CODE.store(check(), SeqCst);
}
fn leave() {
    // SAFETY: ends the process.
    unsafe { _exit(check()) }
}
extern "C" fn leave_c() {
    leave();
}
fn note_in_thread() {
    std::thread::spawn(note).join().expect("thread");
}

/// A forked child's code, or 64 + its signal.
fn in_child(f: impl FnOnce() -> i32) -> i32 {
    // SAFETY: plain fork and wait; the child only ends by _exit.
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(30);
            _exit(f());
        }
        let mut st = 0;
        assert_eq!(waitpid(pid, &mut st, 0), pid);
        if st & 0x7F == 0 {
            st >> 8 & 0xFF
        } else {
            64 + (st & 0x7F)
        }
    }
}

fn ask(first: usize) {
    if first != NONE {
        let _ = guard(|| probe(first));
    }
}

fn in_thread(first: usize, f: fn() -> i32) -> i32 {
    std::thread::spawn(move || {
        ask(first);
        f()
    })
    .join()
    .unwrap_or(90)
}

fn phase(k: usize, first: usize) -> i32 {
    let in_ending_thread = |before: bool, f: fn()| {
        let _ = std::thread::spawn(move || {
            if before {
                at_end(f);
            }
            ask(first);
            if !before {
                at_end(f);
            }
        })
        .join();
        CODE.load(SeqCst)
    };
    match k {
        0 => {
            ask(first);
            check()
        }
        1 => in_thread(first, check),
        2 => {
            ask(first);
            in_thread(NONE, check)
        }
        3 => in_ending_thread(true, note),
        4 => in_ending_thread(false, note),
        5 | 6 => {
            if k == 5 {
                at_end(leave);
            }
            ask(first);
            if k == 6 {
                at_end(leave);
            }
            // SAFETY: ends the process.
            unsafe { exit(77) }
        }
        7 | 8 => {
            // SAFETY: a function without conditions.
            unsafe {
                if k == 7 {
                    atexit(leave_c);
                }
                ask(first);
                if k == 8 {
                    atexit(leave_c);
                }
                exit(77)
            }
        }
        9 => {
            let _ = std::panic::catch_unwind(|| {
                let _end = AtEnd(note);
                ask(first);
                panic!("unwind");
            });
            CODE.load(SeqCst)
        }
        10 => {
            ask(first);
            std::panic::set_hook(Box::new(|_| note()));
            let _ = std::panic::catch_unwind(|| panic!("hook"));
            CODE.load(SeqCst)
        }
        11 => {
            ask(first);
            in_child(check)
        }
        12 => in_thread(first, || in_child(check)),
        13 => std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                ask(first);
                check()
            })
            .expect("thread")
            .join()
            .unwrap_or(90),
        14 => {
            // SAFETY: nothing here uses them.
            unsafe {
                close(0);
                close(1);
                close(2);
            }
            ask(first);
            check()
        }
        15 => {
            ask(first);
            std::thread::spawn(|| {
                std::thread::sleep(std::time::Duration::from_millis(1));
                leave();
            });
            extern "C" {
                fn syscall(n: i64, ...) -> i64;
            }
            // SAFETY: exit of this thread alone.
            unsafe {
                syscall(60, 0);
            }
            77
        }
        16 => in_ending_thread(true, note_in_thread),
        _ => {
            ask(first);
            in_child(|| in_thread(NONE, check))
        }
    }
}

/// While another thread is held up in the caller's code, at entry `at` of subject k.
fn hold(how: usize, k: usize, at: usize, plain: u64) -> i32 {
    HELD.store(false, SeqCst);
    GO.store(false, SeqCst);
    let t = std::thread::spawn(move || subject(k, &Trap::new(at, Act::Hold)).map(|x| x.1));
    while !HELD.load(SeqCst) {
        if t.is_finished() {
            return 91;
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
    let code = match how {
        0 => check(),
        1 => in_thread(NONE, check),
        2 => in_child(check),
        _ => in_child(|| in_thread(NONE, check)),
    };
    GO.store(true, SeqCst);
    match t.join() {
        Ok(Some(Ok(x))) if x == plain => code,
        _ if code != 0 => code,
        _ => 92,
    }
}

/// `mc life`: reads the answers of the probes, then lines: "p phase first rotation" or "h how subject entry answer"; each
/// in a fork of this process, which itself never calls the core.
pub fn serve() {
    use std::io::BufRead;
    let mut lines = std::io::stdin().lock().lines().map(|l| l.expect("input"));
    let _ = WANT.set(lines.next().unwrap_or_default().split(' ').map(|x| x.parse().expect("answer")).collect());
    for line in lines {
        let n: Vec<u64> = line[2..].split(' ').map(|x| x.parse().expect("number")).collect();
        let code = in_child(|| {
            if line.starts_with('p') {
                ROT.store(n[2] as i32, SeqCst);
                phase(n[0] as usize, n[1] as usize)
            } else {
                hold(n[0] as usize, n[1] as usize, n[2] as usize, n[3])
            }
        });
        if code != 0 {
            println!("{code} {line}");
            return;
        }
    }
    println!("ok");
}

fn outcome(code: i32) -> String {
    match code {
        77 => "nothing is asked (the process ends before)".into(),
        78 => "does not come back within 30 s".into(),
        64..=89 => format!("the process is ended by signal {}", code - 64),
        90 => "the thread panics".into(),
        91 => "the entry is not reached".into(),
        92 => "the call that was held up answers differently than alone".into(),
        c => format!("probe {} (see `probe` in cut.rs) answers differently than in a fresh process", c - 1),
    }
}

fn check_lines(want: &[u64], lines: &[String], ctx: &mut Ctx) -> Check {
    use std::io::Write;
    let mut child = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("life")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("a zygote");
    let mut text = want.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
    for l in lines {
        text.push('\n');
        text.push_str(l);
        ctx.step();
        ctx.outcome(hash_words(l.bytes().map(u64::from)));
    }
    text.push('\n');
    let mut input = child.stdin.take().expect("pipe");
    let _ = input.write_all(text.as_bytes());
    drop(input);
    let out = child.wait_with_output().expect("zygote");
    let answer = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if answer == "ok" {
        return Ok(());
    }
    let (code, line) = answer.split_once(' ').unwrap_or_else(|| panic!("zygote: {answer:?} {:?}", out.status));
    let n: Vec<u64> = line[2..].split(' ').map(|x| x.parse().expect("number")).collect();
    let what = outcome(code.parse().expect("code"));
    Err(if line.starts_with('p') {
        let first = if n[1] as usize == NONE { "no call".to_string() } else { format!("probe {}", n[1]) };
        format!("first {first}, then, {}, all probes from {} on: {what}", PHASES[n[0] as usize], n[2])
    } else {
        let (name, _) = subject(n[1] as usize, &Trap::new(usize::MAX, Act::Panic)).expect("a subject");
        format!("one thread is in {name}, at entry {} into the caller's code, and stays there; all probes {}: {what}", n[2], HOLDS[n[0] as usize])
    })
}

fn lines_suite(name: &str, bound: String, want: &'static [u64], lines: Vec<String>, per: usize) -> Suite {
    let lines = Arc::new(lines);
    Suite::new(name, &bound, lines.len().div_ceil(per), move |u, ctx| check_lines(want, &lines[u * per..((u + 1) * per).min(lines.len())], ctx))
}

pub fn c32(thorough: bool) -> Vec<Suite> {
    let c = match cuts() {
        Ok(c) => c,
        Err(e) => {
            let e = e.clone();
            return vec![Suite::new("plain calls", "every call with the caller's own code", 1, move |_, _| Err(e.clone()))];
        }
    };
    let mut phases = vec![];
    for p in 0..PHASES.len() {
        for first in (0..PROBES).chain([NONE]) {
            for rot in 0..PROBES {
                phases.push(format!("p {p} {first} {rot}"));
            }
        }
    }
    let mut holds = vec![];
    for how in 0..HOLDS.len() {
        for (j, &(k, at)) in c.list.iter().enumerate() {
            if thorough || how < 2 || j % 2 == how % 2 {
                holds.push(format!("h {how} {k} {at} {}", c.plain[k]));
            }
        }
    }
    vec![
        lines_suite("moments", format!("{} moments x {} first calls x each of {PROBES} probes asked there first, then the others; each in a process forked before any call", PHASES.len(), PROBES + 1), &c.want, phases, 24),
        lines_suite("held up", format!("one thread held up at each of {} entries into the caller's code; all probes {:?}", c.list.len(), HOLDS), &c.want, holds, 24),
    ]
}
