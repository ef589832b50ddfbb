//! Spreads seeded runs over worker processes, and turns a violation into a replay file.
//!
//! A run is a pure function of its tape. Workers run them one after the other in a process of
//! their own; the parent never calls the library.

use std::{
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Write},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::mpsc::{channel, RecvTimeoutError},
    time::{Duration, Instant},
};

use serde_json::{json, Value};
use simcore::{
    cx::{clip, hash_bytes, Cx},
    tape::{Rng, Tape},
};

use crate::{known, proc::Proc, scen};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C18", "C19",
];

/// Exit statuses: 0 held, 1 violation, 2 the check itself failed.
pub const BROKEN: i32 = 2;

fn runs(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C01" => 23_000,
        "C02" => 28_000,
        "C03" => 42_000,
        "C04" => 35_000,
        "C05" => 71_000,
        "C06" => 39_000,
        "C07" => 204_000,
        "C08" => 187_000,
        "C09" => 39_000,
        "C10" => 30_000,
        "C11" => 10_000,
        "C12" => 37_000,
        "C13" => 32_000,
        "C14" => 44_000,
        "C18" => 40_000,
        "C19" => 14_000,
        _ => 10_000,
    };
    if thorough {
        quick * 50
    } else {
        quick
    }
}
/// Wall-clock bounds; the number of runs is what normally ends a quick check.
fn limit(thorough: bool) -> Duration {
    let env = std::env::var("WOTSIM_SECONDS").ok().and_then(|x| x.parse().ok());
    Duration::from_secs(env.unwrap_or(if thorough { 600 } else { 120 }))
}
const HANG: Duration = Duration::from_secs(120);

pub fn prop(id: &str) -> Option<&'static str> {
    PROPS.iter().find(|p| **p == id).copied()
}
pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_bytes(prop.as_bytes()) ^ i.wrapping_mul(0x2545_f491_4f6c_dd1d));
    r.next()
}

pub struct Outcome {
    pub what: Option<String>,
    pub broken: bool,
    pub cx: Cx,
}

/// One run, in a simulated process of its own.
pub fn run_one(prop: &'static str, tape: Tape, thorough: bool, log: bool) -> Outcome {
    let p = Proc::spawn(1);
    let mut cx = Cx::new(tape, prop, thorough, log);
    let r = p.call(|| scen::run(&mut cx));
    let what = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v.what),
        Err(e) => Some(format!("panic outside of a simulated step: {e}")),
    };
    let broken = what.as_ref().is_some_and(|w| w.contains("harness:"));
    Outcome { what, broken, cx }
}

// ---------------------------------------------------------------- workers

fn num(x: u64) -> Value {
    Value::from(x)
}

pub fn worker(prop: &'static str, seed: u64, thorough: bool, w: u64, of: u64, total: u64, secs: u64) -> i32 {
    let t0 = Instant::now();
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let (mut orders, mut traces, mut shapes) = (HashSet::new(), HashSet::new(), HashSet::new());
    let (mut done, mut nontrivial, mut simulated, mut steps) = (0u64, 0u64, 0u64, 0u64);
    let out = std::io::stdout();
    let mut slowest = Duration::ZERO;
    let mut i = w;
    while i < total && t0.elapsed().as_secs() < secs {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "R {i}");
            let _ = o.flush();
        }
        let log = w == 0 && done < 2;
        let started = Instant::now();
        let r = run_one(prop, Tape::random(run_seed(seed, prop, i)), thorough, log);
        slowest = slowest.max(started.elapsed());
        if let Some(what) = r.what {
            let kind = if r.broken { "B" } else { "V" };
            println!("{kind} {}", json!({"i": i, "what": what, "tape": r.cx.t.rec}));
            return if r.broken { BROKEN } else { 1 };
        }
        if let Some(l) = r.cx.log {
            let l: Vec<String> = l.into_iter().take(40).map(|x| clip(&x, 1200)).collect();
            println!("S {}", json!({"run": i, "seed": run_seed(seed, prop, i), "history": l}));
        }
        for (k, v) in r.cx.n {
            *n.entry(k).or_insert(0) += v;
        }
        done += 1;
        steps += r.cx.t.rec.len() as u64;
        simulated += r.cx.now;
        orders.insert(r.cx.order);
        if r.cx.nontrivial && traces.insert(r.cx.trace ^ r.cx.order.rotate_left(32)) {
            nontrivial += 1;
        }
        // Bounded memory: what is counted past this is not claimed as distinct.
        if shapes.len() < 400_000 {
            shapes.extend(r.cx.shapes);
        }
        i += of;
    }
    let list = |s: HashSet<u64>| -> Value { s.into_iter().map(num).collect::<Vec<_>>().into() };
    println!(
        "E {}",
        json!({
            "done": done, "nontrivial": nontrivial, "simulated": simulated, "steps": steps, "n": n,
            "orders": list(orders), "traces": list(traces), "shapes": list(shapes),
            "slowest": slowest.as_secs_f64(),
        })
    );
    0
}

enum Say {
    Line(usize, String),
    End(usize),
}

struct Found {
    i: u64,
    worker: u64,
    what: String,
    tape: Option<Vec<u64>>,
}

pub struct Totals {
    pub done: u64,
    pub simulated: u64,
    pub steps: u64,
    /// Seconds the slowest run took.
    pub slowest: f64,
    pub n: BTreeMap<String, u64>,
    pub orders: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub samples: Vec<Value>,
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|_| PathBuf::from("wotsim"))
}

fn spawn_worker(args: &[String]) -> std::io::Result<Child> {
    Command::new(me())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
}

fn explore(prop: &'static str, seed: u64, thorough: bool, total: u64, secs: Duration) -> Result<(Totals, Option<Found>), String> {
    let of = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let (tx, rx) = channel();
    let mut kids = Vec::new();
    for w in 0..of {
        let args: Vec<String> = ["worker".to_string(), prop.to_string()]
            .into_iter()
            .chain([seed, thorough as u64, w, of, total, secs.as_secs()].iter().map(|x| x.to_string()))
            .collect();
        let mut c = spawn_worker(&args).map_err(|e| format!("no worker: {e}"))?;
        let o = c.stdout.take().ok_or("no pipe")?;
        let tx = tx.clone();
        let id = kids.len();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                if tx.send(Say::Line(id, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Say::End(id));
        });
        kids.push((c, u64::MAX, Instant::now(), false));
    }
    let mut t = Totals {
        done: 0,
        simulated: 0,
        steps: 0,
        slowest: 0.0,
        n: BTreeMap::new(),
        orders: HashSet::new(),
        traces: HashSet::new(),
        shapes: HashSet::new(),
        samples: Vec::new(),
    };
    let mut found: Option<Found> = None;
    let mut trouble: Option<String> = None;
    let mut open = kids.len();
    while open > 0 && found.is_none() && trouble.is_none() {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Say::Line(k, l)) => {
                kids[k].2 = Instant::now();
                let (tag, rest) = l.split_at(l.len().min(2));
                match tag {
                    "R " => kids[k].1 = rest.parse().unwrap_or(u64::MAX),
                    "S " => {
                        if let Ok(v) = serde_json::from_str(rest) {
                            t.samples.push(v);
                        }
                    }
                    "V " | "B " => {
                        let v: Value = serde_json::from_str(rest).map_err(|e| e.to_string())?;
                        let what = v["what"].as_str().unwrap_or("").to_string();
                        if tag == "B " {
                            trouble = Some(format!("run {}: {what}", v["i"]));
                        } else {
                            found = Some(Found {
                                i: v["i"].as_u64().unwrap_or(0),
                                worker: k as u64,
                                what,
                                tape: v["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()),
                            });
                        }
                    }
                    "E " => {
                        let v: Value = serde_json::from_str(rest).map_err(|e| e.to_string())?;
                        let g = |n: &str| v[n].as_u64().unwrap_or(0);
                        t.done += g("done");
                        t.simulated += g("simulated");
                        t.steps += g("steps");
                        t.slowest = t.slowest.max(v["slowest"].as_f64().unwrap_or(0.0));
                        for (k, x) in v["n"].as_object().into_iter().flatten() {
                            *t.n.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                        }
                        let put = |s: &mut HashSet<u64>, n: &str| {
                            s.extend(v[n].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
                        };
                        put(&mut t.orders, "orders");
                        put(&mut t.traces, "traces");
                        put(&mut t.shapes, "shapes");
                        kids[k].3 = true;
                    }
                    _ => {}
                }
            }
            Ok(Say::End(k)) => {
                open -= 1;
                let ended = kids[k].0.wait().map_err(|e| e.to_string())?;
                if !kids[k].3 && found.is_none() && trouble.is_none() {
                    let i = kids[k].1;
                    if i == u64::MAX {
                        trouble = Some(format!("a worker did not start: {ended}"));
                    } else {
                        found = Some(Found { i, worker: k as u64, what: died(ended), tape: None });
                    }
                }
            }
            Err(RecvTimeoutError::Timeout) => {
                for (k, (_, i, at, over)) in kids.iter().enumerate() {
                    if !over && at.elapsed() > HANG && *i != u64::MAX {
                        found = Some(Found { i: *i, worker: k as u64, what: HUNG.into(), tape: None });
                    }
                }
            }
            Err(_) => break,
        }
    }
    for (c, ..) in &mut kids {
        let _ = c.kill();
        let _ = c.wait();
    }
    match trouble {
        Some(e) => Err(e),
        None => Ok((t, found)),
    }
}

const HUNG: &str = "the run does not come to an end";
fn died(ended: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (ended.code(), ended.signal()) {
        (Some(simcore::sched::DEADLOCK), _) => "deadlock: the threads that share a Thing wait for each other".into(),
        (_, Some(s)) => format!("the process was ended by signal {s} (stack overflow or abort)"),
        (c, _) => format!("the process ended with {c:?}"),
    }
}

// ---------------------------------------------------------------- replay files

/// What was run, last the run that violates the property. `u64`: a seeded run.
#[derive(Clone)]
pub enum Step {
    Seed(u64),
    Tape(Vec<u64>),
}

fn steps_json(s: &[Step]) -> Value {
    s.iter()
        .map(|x| match x {
            Step::Seed(s) => json!({ "seed": s }),
            Step::Tape(t) => json!({ "tape": t }),
        })
        .collect::<Vec<_>>()
        .into()
}
fn steps_from(v: &Value) -> Vec<Step> {
    v.as_array()
        .into_iter()
        .flatten()
        .map(|x| match x["tape"].as_array() {
            Some(t) => Step::Tape(t.iter().filter_map(|x| x.as_u64()).collect()),
            None => Step::Seed(x["seed"].as_u64().unwrap_or(0)),
        })
        .collect()
}

/// Runs a history in this process; gives the violation of its last run.
pub fn run_history(prop: &'static str, thorough: bool, steps: &[Step], log: bool) -> Outcome {
    let n = steps.len();
    for (i, s) in steps.iter().enumerate() {
        let t = match s {
            Step::Seed(x) => Tape::random(*x),
            Step::Tape(t) => Tape::replay(t.clone()),
        };
        let o = run_one(prop, t, thorough, log && i + 1 == n);
        if i + 1 == n {
            return o;
        }
    }
    run_one(prop, Tape::replay(vec![]), thorough, log)
}

/// Runs a history in a process of its own: what it found, and the choices of its last run.
fn probe(prop: &str, thorough: bool, steps: &[Step], at: &Path, secs: u64) -> Option<(String, Vec<u64>, Vec<String>)> {
    let f = json!({"property": prop, "thorough": thorough, "history": steps_json(steps)});
    std::fs::write(at, f.to_string()).ok()?;
    let mut c = spawn_worker(&["probe".into(), at.to_string_lossy().into_owned()]).ok()?;
    let mut o = c.stdout.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut b = String::new();
        let _ = std::io::Read::read_to_string(&mut o, &mut b);
        let _ = tx.send(b);
    });
    let text = match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(t) => t,
        Err(_) => {
            let _ = c.kill();
            let _ = c.wait();
            return Some((HUNG.into(), vec![], vec![]));
        }
    };
    let ended = c.wait().ok()?;
    match text.lines().find_map(|l| l.strip_prefix("P ")) {
        Some(l) => {
            let v: Value = serde_json::from_str(l).ok()?;
            let what = v["what"].as_str()?.to_string();
            if v["broken"].as_bool() == Some(true) {
                return None;
            }
            let tape = v["tape"].as_array()?.iter().filter_map(|x| x.as_u64()).collect();
            let log = v["log"].as_array()?.iter().filter_map(|x| x.as_str().map(String::from)).collect();
            Some((what, tape, log))
        }
        None if ended.success() => None,
        None => Some((died(ended), vec![], vec![])),
    }
}

pub fn probe_main(file: &str) -> i32 {
    let Some((prop, thorough, steps)) = load(file) else { return BROKEN };
    let o = run_history(prop, thorough, &steps, true);
    println!(
        "P {}",
        json!({"what": o.what, "broken": o.broken, "tape": o.cx.t.rec, "log": o.cx.log.unwrap_or_default()})
    );
    0
}

fn load(file: &str) -> Option<(&'static str, bool, Vec<Step>)> {
    let v: Value = serde_json::from_slice(&std::fs::read(file).ok()?).ok()?;
    Some((
        prop(v["property"].as_str()?)?,
        v["thorough"].as_bool().unwrap_or(false),
        steps_from(&v["history"]),
    ))
}

/// What kind of violation it is, so that shrinking does not wander to another one.
fn kind(w: &str) -> String {
    w.chars()
        .take_while(|c| *c != ':' && *c != '{' && *c != '"')
        .filter(|c| !c.is_ascii_digit())
        .take(40)
        .collect()
}

/// Makes the last run of a failing history smaller, within a time bound.
fn shrink(prop: &str, thorough: bool, mut steps: Vec<Step>, what: &str, dir: &Path, until: Instant) -> (Vec<Step>, u64) {
    let Some(Step::Tape(mut best)) = steps.pop() else { return (steps, 0) };
    let want = kind(what);
    let prefix = steps;
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let mut tried = 0u64;
    // Tries candidates several at a time; the first in order that still fails wins.
    let mut attempt = |cands: Vec<Vec<u64>>, best: &mut Vec<u64>| -> bool {
        for (c, group) in cands.chunks(threads).enumerate() {
            if Instant::now() > until {
                return false;
            }
            tried += group.len() as u64;
            let res: Vec<Option<Vec<u64>>> = std::thread::scope(|s| {
                let hs: Vec<_> = group
                    .iter()
                    .enumerate()
                    .map(|(k, cand)| {
                        let (prefix, want) = (&prefix, &want);
                        let f = dir.join(format!("try-{}-{c}-{k}.json", std::process::id()));
                        s.spawn(move || {
                            let mut st = prefix.clone();
                            st.push(Step::Tape(cand.clone()));
                            let r = probe(prop, thorough, &st, &f, 20);
                            let _ = std::fs::remove_file(&f);
                            match r {
                                Some((w, mut t, _)) if kind(&w) == *want => {
                                    if t.is_empty() {
                                        t = cand.clone();
                                    }
                                    while t.last() == Some(&0) {
                                        t.pop();
                                    }
                                    Some(t)
                                }
                                _ => None,
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().ok().flatten()).collect()
            });
            if let Some(t) = res.into_iter().flatten().find(|t| (t.len(), t.iter().sum::<u64>()) < (best.len(), best.iter().sum::<u64>())) {
                *best = t;
                return true;
            }
        }
        false
    };
    let mut size = (best.len() / 2).max(1);
    loop {
        // Remove, then zero, then lower.
        let mut again = true;
        while again {
            again = false;
            let starts: Vec<usize> = (0..best.len()).step_by(size).collect();
            let mut cands = Vec::new();
            for a in starts.iter().rev() {
                let e = (a + size).min(best.len());
                let mut c = best.clone();
                c.drain(*a..e);
                cands.push(c);
                if best[*a..e].iter().any(|x| *x != 0) {
                    let mut z = best.clone();
                    z[*a..e].fill(0);
                    cands.push(z);
                }
            }
            if attempt(cands, &mut best) {
                again = true;
            }
            if Instant::now() > until {
                break;
            }
        }
        if size == 1 || Instant::now() > until {
            break;
        }
        size = (size / 2).max(1);
    }
    for i in 0..best.len() {
        if Instant::now() > until {
            break;
        }
        while i < best.len() && best[i] > 0 {
            let v = best[i];
            let mut cands = Vec::new();
            for x in [0, v / 2, v - 1] {
                let mut c = best.clone();
                c[i] = x;
                cands.push(c);
            }
            if !attempt(cands, &mut best) {
                break;
            }
        }
    }
    let mut steps = prefix;
    steps.push(Step::Tape(best));
    (steps, tried)
}

fn replay_dir() -> PathBuf {
    let d = std::env::var("WOTSIM_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("."));
    d.join("replays")
}

/// Confirms a violation in a fresh process, makes it small and writes it down.
fn report(prop: &'static str, seed: u64, thorough: bool, of: u64, f: Found) -> Result<PathBuf, String> {
    let dir = replay_dir();
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let rs = run_seed(seed, prop, f.i);
    let tmp = dir.join(format!("probe-{}.json", std::process::id()));
    let confirm = |steps: &[Step], secs: u64| probe(prop, thorough, steps, &tmp, secs);
    let mut steps = vec![match &f.tape {
        Some(t) => Step::Tape(t.clone()),
        None => Step::Seed(rs),
    }];
    let mut what = f.what.clone();
    let mut alone = true;
    match confirm(&steps, 60) {
        Some((w, ..)) => what = w,
        None => {
            // Something earlier in the worker's process is part of it.
            alone = false;
            let last = steps.pop().ok_or("no steps")?;
            let all: Vec<u64> = (0..).map(|k| f.worker + k * of).take_while(|i| *i < f.i).collect();
            let mut k = 1;
            let mut hit = None;
            loop {
                let from = all.len().saturating_sub(k);
                let mut st: Vec<Step> = all[from..].iter().map(|i| Step::Seed(run_seed(seed, prop, *i))).collect();
                st.push(last.clone());
                if let Some((w, ..)) = confirm(&st, 300) {
                    hit = Some((st, w));
                    break;
                }
                if from == 0 {
                    break;
                }
                k *= 4;
            }
            match hit {
                Some((st, w)) => {
                    steps = st;
                    what = w;
                }
                None => steps = vec![last],
            }
        }
    }
    let (mut steps, tried) = if f.tape.is_some() {
        shrink(prop, thorough, steps, &what, &dir, Instant::now() + Duration::from_secs(75))
    } else {
        (steps, 0)
    };
    // Runs of the history that are not needed.
    if !alone {
        let mut i = 0;
        let t0 = Instant::now();
        while i + 1 < steps.len() && t0.elapsed().as_secs() < 30 {
            let mut c = steps.clone();
            c.remove(i);
            if confirm(&c, 60).is_some_and(|x| kind(&x.0) == kind(&what)) {
                steps = c;
            } else {
                i += 1;
            }
        }
    }
    let (w, _, log) = confirm(&steps, 120).unwrap_or((what, vec![], vec!["not reproduced in a process of its own".into()]));
    let _ = std::fs::remove_file(&tmp);
    let path = dir.join(format!("{prop}-{:016x}.json", hash_bytes(w.as_bytes()) ^ rs));
    let log: Vec<String> = log.into_iter().map(|l| clip(&l, 3000)).collect();
    let v = json!({
        "property": prop,
        "violation": w,
        "seed": seed,
        "run": f.i,
        "run_seed": rs,
        "thorough": thorough,
        "shrinking_attempts": tried,
        "history": steps_json(&steps),
        "trace": log,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default()).map_err(|e| e.to_string())?;
    println!("{prop}: {}", clip(&w, 3000));
    Ok(path)
}

pub fn replay(file: &str) -> i32 {
    if let Some(r) = known::replay(file) {
        return r;
    }
    let Some((prop, thorough, steps)) = load(file) else {
        eprintln!("no replay file: {file}");
        return BROKEN;
    };
    let o = run_history(prop, thorough, &steps, true);
    for l in o.cx.log.unwrap_or_default() {
        println!("{}", clip(&l, 3000));
    }
    match o.what {
        Some(w) if !o.broken => {
            println!("{}", clip(&w, 3000));
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        Some(w) => {
            eprintln!("{w}");
            BROKEN
        }
        None => {
            println!("held");
            0
        }
    }
}

// ---------------------------------------------------------------- the check

/// Runs the first runs once more, with other workers, and counts those that went the same way.
fn determinism(prop: &'static str, seed: u64, thorough: bool) -> (u64, u64) {
    let n = 24u64;
    let digest = || -> Option<Vec<String>> {
        let c = spawn_worker(&[
            "digest".into(),
            prop.into(),
            seed.to_string(),
            (thorough as u64).to_string(),
            n.to_string(),
        ])
        .ok()?
        .wait_with_output()
        .ok()?;
        Some(String::from_utf8_lossy(&c.stdout).lines().map(String::from).collect())
    };
    let (a, b) = std::thread::scope(|s| {
        let h = s.spawn(digest);
        let b = digest();
        (h.join().ok().flatten(), b)
    });
    match (a, b) {
        (Some(a), Some(b)) => (n, a.iter().zip(&b).filter(|(x, y)| x == y).count() as u64),
        _ => (n, 0),
    }
}

pub fn digest_main(prop: &'static str, seed: u64, thorough: bool, n: u64) -> i32 {
    for i in 0..n {
        let o = run_one(prop, Tape::random(run_seed(seed, prop, i)), thorough, false);
        let mut h = hash_bytes(format!("{:?}", o.cx.n).as_bytes());
        for x in &o.cx.t.rec {
            h = h.rotate_left(7).wrapping_mul(31).wrapping_add(*x);
        }
        println!("{i} {:016x} {:016x} {h:016x} {}", o.cx.trace, o.cx.order, o.cx.now);
    }
    0
}

pub fn check(prop: &'static str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let total = std::env::var("WOTSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| runs(prop, thorough));
    // The recorded findings first: they are fixed histories.
    let mut violations: Vec<String> = Vec::new();
    let mut findings = Vec::new();
    for k in known::probes(prop) {
        match known::run(&k) {
            known::Verdict::Listed(t) => {
                println!("KNOWN-FINDING: property={prop} {t}");
                findings.push(k.id);
            }
            known::Verdict::Gone => println!("note: recorded finding {} no longer shows", k.id),
            known::Verdict::Unlisted(w) => {
                let dir = replay_dir();
                let path = dir.join(format!("{prop}-{}.json", k.id));
                let v = json!({"property": prop, "finding": k.id, "violation": w});
                if std::fs::create_dir_all(&dir).and_then(|_| std::fs::write(&path, v.to_string())).is_err() {
                    return BROKEN;
                }
                println!("{prop}: {w}");
                println!("VIOLATION property={prop} replay={}", path.display());
                violations.push(path.display().to_string());
            }
        }
    }
    let of = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let (mut t, found) = match explore(prop, seed, thorough, total, limit(thorough)) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("the check failed: {e}");
            return BROKEN;
        }
    };
    let explored = t0.elapsed().as_secs_f64();
    if let Some(f) = found {
        t.done = t.done.max(f.i + 1);
        let what = f.what.clone();
        match report(prop, seed, thorough, of, f) {
            Ok(p) => {
                println!("VIOLATION property={prop} replay={}", p.display());
                violations.push(p.display().to_string());
            }
            Err(e) => {
                eprintln!("violation that could not be written down ({e}): {what}");
                return BROKEN;
            }
        }
    }
    let same = if violations.is_empty() { determinism(prop, seed, thorough) } else { (0, 0) };
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&str, u64> =
        t.n.iter().filter_map(|(k, v)| k.strip_prefix("fault: ").map(|k| (k, *v))).collect();
    let events: BTreeMap<&str, u64> =
        t.n.iter().filter(|(k, _)| !k.starts_with("fault: ")).map(|(k, v)| (k.as_str(), *v)).collect();
    let per_hour = |x: u64| (x as f64 / explored.max(0.001) * 3600.0).round() as u64;
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.done,
            "distinct_nontrivial": t.traces.len(),
            "rule": format!("{} A run is non-trivial if a fault was injected or its parties interleaved; two are distinct if the hash of every byte transferred, decision delivered and order of steps differs.", scen::rule(prop)),
            "samples": t.samples,
            "simulated_runs_per_hour": per_hour(t.done),
            "seeds_per_hour": per_hour(t.done),
            "simulated_seconds": t.simulated as f64 / 1e9,
            "scheduler_and_fault_decisions": t.steps,
            "faults_injected": faults,
            "events": events,
            "distinct_interleavings": t.orders.len(),
            "interleaving_measure": "hash of the sequence of (party, kind of step, fault) of a run",
            "distinct_description_shapes": t.shapes.len(),
            "replayed_in_two_processes": same.0,
            "replayed_identically": same.1,
            "recorded_findings_shown": findings,
            "real_components": scen::real(prop),
            "stub_components": scen::stubs(prop),
        },
        "assumptions": scen::ASSUMPTIONS,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
        "replay_files": violations,
    });
    let home = std::env::var("WOTSIM_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("."));
    let dir = home.join("evidence");
    let text = serde_json::to_string_pretty(&ev).unwrap_or_default();
    if std::fs::create_dir_all(&dir).and_then(|_| std::fs::write(dir.join(format!("{prop}.json")), text)).is_err() {
        eprintln!("the evidence could not be written");
        return BROKEN;
    }
    println!(
        "{prop}: {} runs, {} distinct non-trivial, {} violations, {:.1} s, slowest run {:.1} s",
        t.done,
        t.traces.len(),
        violations.len(),
        wall,
        t.slowest
    );
    if violations.is_empty() {
        0
    } else {
        1
    }
}
