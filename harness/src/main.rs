//! Property checks for rqrr.
//!   rqrr-verif run <ID>        decide one property (VERIF_SEED, VERIF_TIER)
//!   rqrr-verif replay <file>   run one recorded case again
//!   rqrr-verif list
mod engine;
mod gen;
mod img;
mod p_decode;
mod p_detect;
mod p_mem;
mod p_state;
mod props;
mod qr;
mod scene;

use engine::*;

#[global_allocator]
static ALLOCATOR: p_mem::Counting = p_mem::Counting;

use std::path::PathBuf;
use std::process::exit;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

/// A case that takes this long (CPU time of its thread; the longest take a few seconds) does not end,
/// nor does one that is in one place two minutes longer by the clock (waiting for something)
fn case_limit() -> f64 {
    env_u64("VERIF_CASE_S", if thorough() { 300 } else { 40 }) as f64
}
/// exit code of a process that found a case that does not end
const ENDLESS: i32 = 7;

/// Running out of time says nothing about the property: neither 0 nor 1.
fn watchdog() {
    std::thread::spawn(|| {
        // per worker: the case it is in and the CPU time it had used when that was first seen
        let mut seen = [(IDLE, 0.0, Instant::now()); 16];
        loop {
            std::thread::sleep(Duration::from_secs(2));
            for (b, s) in BUSY.iter().zip(&mut seen) {
                let case = b.case.load(Ordering::Relaxed);
                let Some(cpu) = cpu_of(b.tid.load(Ordering::Relaxed)) else { continue };
                if case == IDLE || case != s.0 {
                    *s = (case, cpu, Instant::now());
                } else if cpu - s.1 > case_limit() || s.2.elapsed().as_secs_f64() > case_limit() + 120.0 {
                    // leave only this one for the process that started this one to look at
                    let slots = Slots::open();
                    (0..16).for_each(|i| slots.set(i, IDLE));
                    slots.set(0, case);
                    exit(ENDLESS);
                }
            }
        }
    });
    let total = env_u64("VERIF_MAX_S", if thorough() { 20_000 } else { 840 });
    std::thread::spawn(move || {
        let start = Instant::now();
        let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            }
            if last.1.elapsed().as_secs_f64() > case_limit() + 260.0 || start.elapsed().as_secs() > total {
                println!("INCONCLUSIVE: no answer in time ({p} cases done)");
                exit(3);
            }
        }
    });
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn find(id: &str) -> &'static Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        exit(2)
    })
}

/// saved cases: one choice sequence per file, run before the generated ones
fn corpus(id: &str) -> Vec<(String, Vec<u64>)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(root().join("corpus").join(id)) {
        for e in d.flatten() {
            if let Ok(t) = std::fs::read_to_string(e.path()) {
                v.push((e.file_name().to_string_lossy().into_owned(), parse_choices(&t)));
            }
        }
    }
    v.sort();
    v
}

fn parse_choices(t: &str) -> Vec<u64> {
    let body = t.split_once("\"choices\":").map(|x| x.1).unwrap_or(t);
    let body = body.split_once('[').map(|x| x.1).unwrap_or(body);
    let body = body.split_once(']').map(|x| x.0).unwrap_or(body);
    body.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect()
}

fn replay_json(id: &str, seed: u64, f: &Failure, thorough: bool) -> String {
    let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    format!(
        "{{\"property\":{},\"seed\":{seed},\"case\":{},\"thorough\":{thorough},\n \"message\":{},\n \"input\":{},\n \"rerun\":{},\n \"choices\":[{}]}}\n",
        json_str(id),
        f.index,
        json_str(&f.msg),
        json_str(&f.desc),
        json_str("bash /verif/run.sh replay <this file>"),
        ch.join(",")
    )
}

fn write_replay(id: &str, seed: u64, f: &Failure) -> PathBuf {
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let path = d.join(format!("{id}-seed{seed}.json"));
    if let Err(e) = std::fs::write(&path, replay_json(id, seed, f, thorough())) {
        eprintln!("cannot write {}: {e}", path.display());
        exit(2);
    }
    path
}

fn report_violation(id: &str, seed: u64, f: &Failure) -> ! {
    let path = write_replay(id, seed, f);
    println!("  {}", f.msg);
    println!("  input: {}", f.desc);
    println!("VIOLATION property={id} replay={}", path.display());
    exit(1)
}

/// Scratch file, removed when dropped
struct Scratch(PathBuf);
impl Scratch {
    fn new(what: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("rqrr-verif-{}-{what}{n}", std::process::id()));
        std::fs::write(&p, []).unwrap_or_else(|e| {
            eprintln!("{}: {e}", p.display());
            exit(2)
        });
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

/// how a process ended that is neither success nor a report of its own
fn death(st: std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(ENDLESS), _) => Some(format!("does not end (more than {} s of CPU time, or two minutes more of waiting)", case_limit())),
        (None, Some(s @ (4 | 6 | 7 | 8 | 11))) => Some(format!("the process dies with signal {s} (stack or memory used up, or aborted)")),
        _ => None,
    }
}

/// One case in a process of its own. None: the process ended normally.
fn alone(id: &str, how: &str, arg: &str) -> Option<(Vec<u64>, String, String)> {
    let tr = Scratch::new("trace");
    let slots = Scratch::new("slots");
    let st = std::process::Command::new(std::env::current_exe().ok()?)
        .args([how, id, arg])
        .env("VERIF_TRACE", &tr.0)
        .env("VERIF_SLOTS", &slots.0)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    let msg = death(st)?;
    let t = std::fs::read_to_string(&tr.0).unwrap_or_default();
    let choices = t.lines().filter_map(|l| l.parse().ok()).collect();
    let notes: Vec<&str> = t.lines().filter_map(|l| l.strip_prefix('#')).collect();
    Some((choices, msg, notes.join("; ")))
}

/// Runs the check in a process of its own, so that one that dies is noticed
fn supervise(id: &str) -> ! {
    find(id);
    let slots = Scratch::new("slots");
    let st = std::env::current_exe().and_then(|e| {
        std::process::Command::new(e).args(["run-here", id]).env("VERIF_SLOTS", &slots.0).status()
    });
    let st = st.unwrap_or_else(|e| {
        eprintln!("cannot start the check: {e}");
        exit(2)
    });
    if death(st).is_none() {
        drop(slots);
        exit(st.code().unwrap_or(3));
    }
    let seed = env_u64("VERIF_SEED", 1);
    let b = std::fs::read(&slots.0).unwrap_or_default();
    drop(slots);
    let mut at: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if at.contains(&SHRINKING) {
        // the case found is reported as it is
        let path = root().join("replays").join(format!("{id}-seed{seed}.json"));
        println!("  {}", std::fs::read_to_string(&path).unwrap_or_default().chars().take(600).collect::<String>());
        println!("VIOLATION property={id} replay={}", path.display());
        exit(1);
    }
    at.retain(|&v| v != IDLE);
    at.sort();
    let found: Vec<_> = std::thread::scope(|sc| {
        let t: Vec<_> = at.iter().map(|v| sc.spawn(move || alone(id, "case", &(v - 1).to_string()))).collect();
        t.into_iter().map(|t| t.join().ok().flatten()).collect()
    });
    let Some((index, (choices, msg, desc))) = at.iter().zip(found).find_map(|(v, f)| Some((v - 1, f?))) else {
        println!("INCONCLUSIVE: the check died, but not again in any of the cases it was in ({at:?})");
        exit(3)
    };
    let mut f = Failure { index, choices, msg, desc };
    if !f.msg.contains("does not end") {
        let again = |c: Vec<u64>| {
            let s = Scratch::new("choices");
            let t: Vec<String> = c.iter().map(|v| v.to_string()).collect();
            std::fs::write(&s.0, format!("[{}]", t.join(","))).ok()?;
            alone(id, "choices", s.0.to_str()?)
        };
        f = shrink(&again, f, 60.0).0;
    }
    report_violation(id, seed, &f)
}

/// `case <ID> <index>` and `choices <ID> <file>`: the process started by `alone`
fn single(id: &str, how: &str, arg: &str) -> ! {
    let p = find(id);
    if let Some(f) = std::env::var_os("VERIF_TRACE").and_then(|t| std::fs::OpenOptions::new().append(true).open(t).ok()) {
        trace_to(f);
    }
    watchdog();
    let src = match how {
        "case" => Src::fresh(env_u64("VERIF_SEED", 1), p.id, arg.parse().unwrap_or(0), thorough()),
        _ => Src::replay(parse_choices(&std::fs::read_to_string(arg).unwrap_or_default()), thorough()),
    };
    let _ = on_worker(p.run, src);
    exit(0)
}

/// a case on a thread like those of `run_prop`
fn on_worker(run: PropFn, mut src: Src) -> (Ctx, Outcome) {
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || {
            BUSY[0].tid.store(own_tid(), Ordering::Relaxed);
            BUSY[0].case.store(1, Ordering::Relaxed);
            run_case(run, &mut src)
        });
        t.unwrap().join().unwrap()
    })
}

fn run(id: &str) -> ! {
    let p = find(id);
    let th = thorough();
    let seed = env_u64("VERIF_SEED", 1);
    let mut cases = if th { p.thorough } else { p.quick };
    if let Some(c) = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()) {
        cases = c;
    }
    // percentage of the usual number of cases (mutation runs)
    cases = (cases * env_u64("VERIF_SCALE", 100) / 100).max(1);
    watchdog();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let start = Instant::now();
    let saved = corpus(id);
    let mut failure = None;
    for (name, ch) in &saved {
        let mut s = Src::replay(ch.clone(), th);
        let (ctx, out) = run_case(p.run, &mut s);
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if let Err(msg) = out {
            failure = Some(Failure { index: 0, choices: ch.clone(), msg: format!("saved case {name}: {msg}"), desc: ctx.desc });
            break;
        }
    }
    let mut rep = run_prop(p, seed, if failure.is_some() { 0 } else { cases }, th, threads, &|f| {
        write_replay(id, seed, f);
    });
    rep.evaluations += saved.len() as u64;
    if failure.is_none() {
        failure = rep.failure.take();
    }
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut labels = vec![];
    for (k, m) in &rep.labels {
        let inner: Vec<String> = m.iter().map(|(v, c)| format!("{}:{c}", json_str(v))).collect();
        labels.push(format!("{}:{{{}}}", json_str(k), inner.join(",")));
    }
    let samples: Vec<String> = rep.samples.iter().map(|s| json_str(s)).collect();
    let assume: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let json = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"saved_cases\":{},\"shrink_evaluations\":{},\"rule\":{},\"classification\":{{{}}},\n\"samples\":[{}]}},\n\"assumptions\":[{}],\"violations\":{},\"wall_s\":{:.3}}}\n",
        json_str(id),
        if th { "thorough" } else { "quick" },
        rep.evaluations,
        rep.distinct_nontrivial,
        saved.len(),
        rep.shrink_evals,
        json_str(p.rule),
        labels.join(","),
        samples.join(",\n "),
        assume.join(","),
        failure.is_some() as u8,
        start.elapsed().as_secs_f64()
    );
    if let Err(e) = std::fs::write(ev.join(format!("{id}.json")), json) {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
    println!(
        "{id}: {} cases, {} distinct and non-trivial, {:.1} s (seed {seed})",
        rep.evaluations,
        rep.distinct_nontrivial,
        rep.wall
    );
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        for (k, m) in &rep.labels {
            println!("  {k}: {m:?}");
        }
        println!("  memory: {:?}", p_mem::WORST.iter().map(|w| w.load(Ordering::Relaxed)).collect::<Vec<_>>());
        println!("  worst: {:?} permille of the limits", p_detect::WORST.iter().map(|w| w.load(Ordering::Relaxed)).collect::<Vec<_>>());
    }
    if let Some(f) = failure {
        report_violation(id, seed, &f);
    }
    if rep.distinct_nontrivial == 0 {
        eprintln!("no non-trivial case was generated");
        exit(2);
    }
    exit(0)
}

fn replay(file: &str) -> ! {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        exit(2)
    });
    let id = t.split("\"property\":\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
    let p = find(&id);
    watchdog();
    let (ctx, out) = on_worker(p.run, Src::replay(parse_choices(&t), t.contains("\"thorough\":true")));
    println!("input: {}", ctx.desc);
    match out {
        Ok(()) => {
            println!("{id}: holds for this case");
            exit(0)
        }
        Err(e) => {
            println!("  {e}");
            println!("VIOLATION property={id} replay={file}");
            exit(1)
        }
    }
}

fn replay_supervised(file: &str) -> ! {
    let slots = Scratch::new("slots");
    let st = std::env::current_exe().and_then(|e| {
        std::process::Command::new(e).args(["replay-here", file]).env("VERIF_SLOTS", &slots.0).status()
    });
    drop(slots);
    let Ok(st) = st else { exit(2) };
    if let Some(msg) = death(st) {
        let t = std::fs::read_to_string(file).unwrap_or_default();
        let id = t.split("\"property\":\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("");
        println!("  {msg}");
        println!("VIOLATION property={id} replay={file}");
        exit(1);
    }
    exit(st.code().unwrap_or(3))
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match (a.first().map(|s| s.as_str()), a.get(1)) {
        (Some("run"), Some(id)) => supervise(id),
        (Some("run-here"), Some(id)) => run(id),
        (Some(how @ ("case" | "choices")), Some(id)) => single(id, how, a.get(2).map(|s| s.as_str()).unwrap_or("")),
        (Some("replay"), Some(f)) => replay_supervised(f),
        (Some("replay-here"), Some(f)) => replay(f),
        (Some("call"), _) => {
            if p_state::answer().is_err() {
                exit(2);
            }
        }
        (Some("list"), _) => {
            for p in props::PROPS {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
        }
        _ => {
            eprintln!("usage: rqrr-verif run <ID> | replay <file> | list");
            exit(2)
        }
    }
}
