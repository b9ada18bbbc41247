// hmon: executes operation lines on the real crate and records what happened.
//   hmon IN OUT [cpu_limit_s]
// IN : "<id> <op> <arg>..."            one operation per line
// OUT: "<id> OK <result> [!IMPURE]"    | "<id> PANIC <hex location+message>"
//      "<id> HANG <cpu seconds>"       (the process then exits 3)
// Every result line is flushed before the next operation starts, so that the
// driver can tell which operation took the process down.
mod wire;
mod ops_int;
mod ops_ratio;
mod ops_misc;
mod ops_f192;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub type Op = Box<dyn Fn(&[&str]) -> String>;
pub type Ops = HashMap<&'static str, Op>;

/// Declares one operation. The operands' raw representation is compared
/// before and after the call: a difference is reported as "!IMPURE".
#[macro_export]
macro_rules! op {
    ($m:ident, $name:expr, |$($a:ident : $t:ty),*| $body:expr) => {
        let old = $m.insert($name, Box::new(|args: &[&str]| -> String {
            #[allow(unused_imports)] use $crate::wire::{Arg, Out};
            #[allow(unused_mut, unused_variables)] let mut it = args.iter();
            $( let $a: $t = <$t as Arg>::parse(it.next().expect("harness: argument")); )*
            let before: Vec<String> = vec![$( $a.raw() ),*];
            let r = $body;
            #[allow(unused_mut)] let mut o = Out::out(&r);
            let after: Vec<String> = vec![$( $a.raw() ),*];
            if before != after { o.push_str(" !IMPURE"); }
            o
        }));
        assert!(old.is_none(), "duplicate op {}", $name);
    };
}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

fn cpu_ticks() -> u64 {
    // utime + stime of the whole process, in clock ticks (100 per second)
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let t = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = t.split_whitespace().collect();
    if f.len() < 13 { return 0; }
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}

fn all() -> Ops {
    let mut o: Ops = HashMap::new();
    ops_int::register(&mut o);
    ops_ratio::register(&mut o);
    ops_misc::register(&mut o);
    ops_f192::register(&mut o);
    o
}

fn hook() {
    panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{} {}", l, m.chars().take(300).collect::<String>()));
    }));
}

fn record(ops: &Ops, line: &str) -> String {
    let parts: Vec<&str> = line.split(' ').collect();
    let f = match ops.get(parts[1]) { Some(f) => f, None => { eprintln!("harness: unknown op {}", parts[1]); std::process::exit(4); } };
    match panic::catch_unwind(panic::AssertUnwindSafe(|| f(&parts[2..]))) {
        Ok(s) => format!("{} OK {}\n", parts[0], s),
        Err(_) => format!("{} PANIC {}\n", parts[0], wire::hex(LAST.with(|x| x.borrow().clone()).as_bytes())),
    }
}

/// Every operation of IN on every one of `n` threads at once, each thread
/// starting elsewhere and every other one going backwards. OUT.<t> per thread.
fn crowd(inp: &str, out: &str, n: usize) {
    hook();
    let lines: Arc<Vec<String>> = Arc::new(std::fs::read_to_string(inp).expect("input").lines().map(|s| s.to_string()).collect());
    let gate = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|t| {
        let (lines, gate, name) = (lines.clone(), gate.clone(), format!("{}.{}", out, t));
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let ops = all();
            let mut o = std::fs::File::create(name).expect("output");
            let len = lines.len();
            gate.wait();
            for i in 0..len {
                let k = (i + t / 2 * len / n.max(1)) % len;
                let k = if t % 2 == 1 { len - 1 - k } else { k };
                o.write_all(record(&ops, &lines[k]).as_bytes()).expect("write");
            }
            o.write_all(b"END\n").expect("write");
        }).unwrap()
    }).collect();
    for h in hs { if h.join().is_err() { std::process::exit(5); } }
}

/// Groups of lines (separated by empty ones), one group at a time: all threads
/// go round its lines for `ms` milliseconds. OUT.<t> has every distinct outcome.
fn hammer(inp: &str, out: &str, n: usize, ms: u64) {
    hook();
    let text = std::fs::read_to_string(inp).expect("input");
    let groups: Arc<Vec<Vec<String>>> = Arc::new(text.split("\n\n").map(|g| g.lines().map(|s| s.to_string()).collect()).collect());
    let gate = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|t| {
        let (groups, gate, name) = (groups.clone(), gate.clone(), format!("{}.{}", out, t));
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let ops = all();
            let mut o = std::io::BufWriter::new(std::fs::File::create(name).expect("output"));
            let mut rounds = 0u64;
            for g in groups.iter() {
                if g.is_empty() { continue; }
                let mut seen: Vec<Vec<String>> = vec![vec![]; g.len()];
                gate.wait();
                let start = std::time::Instant::now();
                let mut i = t;
                while start.elapsed().as_millis() < ms as u128 || i < t + g.len() {
                    // every other thread stays with a line for a while
                    let k = if t % 2 == 0 { i % g.len() } else { i / 7 % g.len() };
                    let r = record(&ops, &g[k]);
                    if !seen[k].contains(&r) && seen[k].len() < 4 { seen[k].push(r); }
                    i += 1;
                    rounds += 1;
                }
                for v in seen { for r in v { o.write_all(r.as_bytes()).expect("write"); } }
            }
            o.write_all(format!("ROUNDS {}\nEND\n", rounds).as_bytes()).expect("write");
        }).unwrap()
    }).collect();
    for h in hs { if h.join().is_err() { std::process::exit(5); } }
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    if argv.len() == 2 && argv[1] == "--list" {
        let ops = all();
        let mut v: Vec<_> = ops.keys().collect();
        v.sort();
        for k in v { println!("{}", k); }
        return;
    }
    if argv.len() == 6 {
        return hammer(&argv[1], &argv[2], argv[4].parse().unwrap(), argv[5].parse().unwrap());
    }
    if argv.len() == 5 {
        return crowd(&argv[1], &argv[2], argv[4].parse().unwrap());
    }
    let input = std::io::BufReader::new(std::fs::File::open(&argv[1]).expect("input"));
    let out = Arc::new(Mutex::new(std::fs::File::create(&argv[2]).expect("output")));
    let limit: f64 = argv.get(3).map(|s| s.parse().unwrap()).unwrap_or(120.0);
    hook();
    // watchdog: the verdict is on consumed CPU time, not on wall clock
    let cur = Arc::new(AtomicU64::new(0)); // operation id + 1
    if limit > 0.0 {
        let (cur, out) = (cur.clone(), out.clone());
        let (mut seen, mut s) = (0u64, 0u64); // operation last seen running, cpu ticks at that moment
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = cur.load(Ordering::SeqCst);
            let t = cpu_ticks();
            if c == 0 || c != seen { seen = c; s = t; continue; }
            if cur.load(Ordering::SeqCst) == c && t > s && (t - s) as f64 / 100.0 > limit {
                let mut o = out.lock().unwrap();
                let _ = writeln!(o, "{} HANG {}", c - 1, (t - s) / 100);
                let _ = o.flush();
                std::process::exit(3);
            }
        });
    }
    // deep recursion in the code under test gets a generous stack
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let ops = all();
        for line in input.lines() {
            let line = line.expect("line");
            let id: u64 = line.split(' ').next().unwrap().parse().expect("id");
            cur.store(id + 1, Ordering::SeqCst);
            let text = record(&ops, &line);
            cur.store(0, Ordering::SeqCst);
            out.lock().unwrap().write_all(text.as_bytes()).expect("write");
        }
        let mut o = out.lock().unwrap();
        let _ = o.write_all(b"END\n");
        let _ = o.flush();
    }).unwrap();
    if h.join().is_err() { std::process::exit(5); }
}
