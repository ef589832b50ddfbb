//! Things that several threads use at the same time.

use std::io::{self, Read, Write};
use std::sync::Mutex;

use simcore::{
    cx::{clip, Cx, Run},
    gen::G,
    gram::{self, Meaning, Set, READERS},
    io::{io_error, IO_MSG},
    j, sched,
};

use super::*;
use crate::{
    any::{self, Src},
    exts::{set_hook, HookAt, HOOK_MSG},
};

const PANIC: &str = "simulated panic in a shared operation";

/// What the scheduler answers a thread at a transfer or an extension call.
const GO: u64 = 0;
const SHORT: u64 = 1;
const INTERRUPT: u64 = 2;
const FAIL: u64 = 3;
const DIE: u64 = 4;
/// From here on: do that operation first, in the middle of this one.
const NEST: u64 = 16;

struct YSink {
    data: Vec<u8>,
    every: u64,
    n: u64,
    faults: Vec<u64>,
}
impl Write for YSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.n += 1;
        // The later parts of a large document in larger steps.
        let every = if self.n > 800 { self.every.max(23) } else { self.every };
        let d = if self.n % every == 0 { turn("write", buf.len() as u64) } else { GO };
        let mut n = buf.len();
        if d != GO && d < NEST {
            self.faults.push(d);
        }
        match d {
            SHORT if n > 1 => n /= 2,
            INTERRUPT => return Err(io_error(ErrorKind::Interrupted)),
            NEST.. => nested(d),
            FAIL => return Err(io_error(ErrorKind::BrokenPipe)),
            DIE => panic!("{PANIC}"),
            _ => {}
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct YSource<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    faults: Vec<u64>,
}
impl Read for YSource<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        // One call gives one byte to this reader; the transfer behind it is of a chunk.
        let chunk = if self.pos > 8000 { self.chunk.max(400) } else { self.chunk };
        let d = if self.pos % chunk == 0 { turn("read", self.pos as u64) } else { GO };
        if d != GO && d < NEST {
            self.faults.push(d);
        }
        match d {
            INTERRUPT => return Err(io_error(ErrorKind::Interrupted)),
            NEST.. => nested(d),
            FAIL => return Err(io_error(ErrorKind::ConnectionReset)),
            DIE => panic!("{PANIC}"),
            _ => {}
        }
        let n = buf.len().min(self.data.len() - self.pos).min(1.max(self.chunk / 2));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Write { thing: usize, pretty: bool, every: u64 },
    Value { thing: usize },
    Same { a: usize, b: usize },
    Debug { thing: usize },
    Copy { thing: usize },
    Observe { thing: usize },
    Parse { doc: usize, set: Set, chunk: usize },
    ParseSlice { doc: usize, set: Set },
}

#[derive(Debug, Clone, PartialEq)]
enum Res1 {
    Bytes(Vec<u8>),
    Text(String),
    Bool(bool),
    J(J),
    Err(String),
    Panic(String),
}

struct Done {
    got: Res1,
    /// What was written when it ended otherwise.
    part: Vec<u8>,
    faults: Vec<u64>,
}

fn dispatch(op: Op, things: &[Th], docs: &[Vec<u8>], faults: &Mutex<Vec<u64>>, part: &Mutex<Vec<u8>>) -> Res1 {
    match op {
        Op::Write { thing, pretty, every } => {
            let mut s = YSink { data: Vec::new(), every, n: 0, faults: Vec::new() };
            let r = crate::seam::catching(|| things[thing].write(&mut s, pretty));
            faults.lock().expect("harness").extend(&s.faults);
            *part.lock().expect("harness") = s.data.clone();
            match r {
                Ok(Ok(())) => Res1::Bytes(s.data),
                Ok(Err(e)) => Res1::Err(e.to_string()),
                Err(e) => Res1::Panic(e),
            }
        }
        Op::Value { thing } => match things[thing].to_value() {
            Ok(v) => Res1::J(J::from_value(&v)),
            Err(e) => Res1::Err(e.to_string()),
        },
        Op::Same { a, b } => Res1::Bool(things[a].same(&*things[b])),
        Op::Debug { thing } => Res1::Text(things[thing].debug()),
        Op::Copy { thing } => match things[thing].copies() {
            Ok(j) => Res1::J(j),
            Err(e) => Res1::Err(e),
        },
        Op::Observe { thing } => Res1::J(things[thing].observe()),
        Op::Parse { doc, set, chunk } => {
            let mut s = YSource { data: &docs[doc], pos: 0, chunk, faults: Vec::new() };
            let r = crate::seam::catching(|| any::parse(set, Src::Reader(&mut s)));
            faults.lock().expect("harness").extend(&s.faults);
            match r {
                Ok(Ok(t)) => Res1::J(t.observe()),
                Ok(Err(e)) => Res1::Err(e.to_string()),
                Err(e) => Res1::Panic(e),
            }
        }
        Op::ParseSlice { doc, set } => match any::parse(set, Src::Slice(&docs[doc])) {
            Ok(t) => Res1::J(t.observe()),
            Err(e) => Res1::Err(e.to_string()),
        },
    }
}

fn perform(op: Op, things: &[Th], docs: &[Vec<u8>]) -> Done {
    let faults = Mutex::new(Vec::new());
    let part = Mutex::new(Vec::new());
    HOOKED.with(|h| h.borrow_mut().clear());
    let got = match crate::seam::catching(|| dispatch(op, things, docs, &faults, &part)) {
        Ok(r) => r,
        Err(e) => Res1::Panic(e),
    };
    let mut faults = faults.into_inner().unwrap_or_default();
    faults.extend(HOOKED.with(|h| h.borrow().clone()));
    Done { got, part: part.into_inner().unwrap_or_default(), faults }
}

type Nested<'a> = Box<dyn Fn(u64) -> Option<String> + 'a>;

thread_local! {
    /// What a thread does in the middle of an operation, and whether it is doing it.
    static NESTED: std::cell::RefCell<Option<Nested<'static>>> = const { std::cell::RefCell::new(None) };
    static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static WRONG: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    static HOOKED: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn turn(kind: &'static str, n: u64) -> u64 {
    if INSIDE.with(|i| i.get()) {
        return GO;
    }
    sched::yield_at(kind, n)
}

/// An operation in the middle of another one of the same thread.
fn nested(d: u64) {
    let Some(f) = NESTED.with(|n| n.borrow_mut().take()) else { return };
    INSIDE.with(|i| i.set(true));
    let r = f(d - NEST);
    INSIDE.with(|i| i.set(false));
    NESTED.with(|n| *n.borrow_mut() = Some(f));
    WRONG.with(|w| w.borrow_mut().extend(r));
}

pub fn run(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    cx.mark(seed);
    let mut things: Vec<Th> = Vec::new();
    let mut docs: Vec<Vec<u8>> = Vec::new();
    let mut sets: Vec<Set> = Vec::new();
    for _ in 0..1 + cx.t.draw(2) {
        let Some((set, b)) = streams::some_doc(cx, &p)? else {
            return Ok(());
        };
        things.push(must_parse(cx, &p, set, &b, In::Slice, "a node")?);
        // Its equal, so that comparing goes all the way.
        if cx.t.chance(1, 2) {
            things.push(must_parse(cx, &p, set, &b, In::Slice, "a node")?);
        }
        docs.push(b);
        sets.push(set);
    }
    if cx.t.chance(1, 3) {
        // A broken document is refused for each.
        let mut b = docs[0].clone();
        let n = b.len();
        b.truncate(n / 2);
        docs.push(b);
        sets.push(sets[0]);
    }
    if cx.t.chance(1, 2) {
        let set = *cx.t.pick(crate::any::BUILDERS);
        let m = Made::new(cx, set);
        if let Ok(t) = build_on(cx, &p, &m)? {
            things.push(t);
        }
    }
    if cx.t.chance(1, 4) {
        let doc = G::new(&mut cx.t, Set::E2, false).doc();
        docs.push(foreign_text(&doc, 0));
        sets.push(Set::E2);
    }
    // Now and then a crowd, all of it in the middle of something.
    let crowd = cx.t.chance(1, 12);
    let n = if crowd { 20 + cx.t.draw(30) as usize } else { 2 + cx.t.draw(3) as usize };
    let mut plans: Vec<Vec<Op>> = Vec::new();
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..1 + if crowd { 0 } else { cx.t.draw(3) } {
            let thing = cx.t.draw(things.len() as u64) as usize;
            let doc = cx.t.draw(docs.len() as u64) as usize;
            let set = if cx.t.chance(1, 4) { *cx.t.pick(READERS) } else { sets[doc] };
            ops.push(match cx.t.draw(9) {
                8 => Op::Copy { thing },
                0..=2 => Op::Write {
                    thing,
                    pretty: cx.t.chance(1, 4),
                    every: *cx.t.pick(&[9u64, 1, 3, 40]),
                },
                3 => Op::Value { thing },
                4 => Op::Same { a: thing, b: cx.t.draw(things.len() as u64) as usize },
                5 => *cx.t.pick(&[Op::Debug { thing }, Op::Observe { thing }, Op::ParseSlice { doc, set }]),
                _ => Op::Parse { doc, set, chunk: *cx.t.pick(&[64usize, 8, 300]) },
            });
        }
        plans.push(ops);
    }
    // What each would get alone.
    let mut alone: Vec<Vec<Res1>> = Vec::new();
    for plan in &plans {
        let mut rs = Vec::new();
        for op in plan {
            let fresh = Proc::spawn(seed + 5);
            match fresh.call(|| perform(*op, &things, &docs).got) {
                Ok(Res1::Panic(e)) | Err(e) => return cx.fail(format!("panic in {op:?} alone: {e}")),
                Ok(Res1::Err(e)) if matches!(op, Op::Write { .. } | Op::Value { .. } | Op::Copy { .. }) => {
                    return cx.fail(format!("{op:?} fails alone: {e}"))
                }
                Ok(r) => rs.push(r),
            }
        }
        alone.push(rs);
    }
    let before: Vec<(J, String)> = things.iter().map(|t| (t.observe(), t.debug())).collect();

    if cx.t.chance(1, 3) {
        long_life(cx, &p, &things, &docs, &sets)?;
    }
    if cx.t.chance(1, 3) {
        let i = cx.t.draw(sets.len() as u64) as usize;
        comings(cx, &p, sets[i], &docs[i])?;
    }

    let faults = cx.t.chance(1, 2);
    let nests = cx.t.chance(1, 2);
    // The operations that may come in the middle of others, with what they give.
    let flat: Vec<(Op, &Res1)> = plans.iter().flatten().copied().zip(alone.iter().flatten()).collect();
    let wrong: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let results: Vec<Mutex<Vec<Done>>> = (0..n).map(|_| Mutex::new(Vec::new())).collect();
    let mut tasks: Vec<sched::Task> = Vec::new();
    for (id, plan) in plans.iter().enumerate() {
        let (things, docs, results, flat, wrong) = (&things, &docs, &results, &flat, &wrong);
        tasks.push(Box::new(move || {
            let f: Nested<'_> = Box::new(move |i| {
                let (op, want) = flat[i as usize % flat.len()];
                let (a, b) = (Mutex::new(Vec::new()), Mutex::new(Vec::new()));
                let got = match crate::seam::catching(|| dispatch(op, things, docs, &a, &b)) {
                    Ok(r) => r,
                    Err(e) => Res1::Panic(e),
                };
                (got != *want).then(|| {
                    format!(
                        "{op:?}, in the middle of another operation, got {} and alone {}",
                        brief(&got),
                        brief(want)
                    )
                })
            });
            // Taken away again below, before what it borrows ends.
            let f: Nested<'static> = unsafe { std::mem::transmute(f) };
            NESTED.with(|n| *n.borrow_mut() = Some(f));
            set_hook(Some(Box::new(|at, _| {
                let d = turn(
                    match at {
                        HookAt::Ser => "ser",
                        HookAt::De => "de",
                        HookAt::Clone => "copy",
                    },
                    0,
                );
                if d >= NEST {
                    nested(d);
                    return true;
                }
                if d != GO {
                    HOOKED.with(|h| h.borrow_mut().push(d));
                }
                match d {
                    FAIL => false,
                    DIE => panic!("{PANIC}"),
                    _ => true,
                }
            })));
            for op in plan {
                sched::yield_at("op", 0);
                let d = perform(*op, things, docs);
                results[id].lock().expect("harness").push(d);
            }
            set_hook(None);
            NESTED.with(|n| n.borrow_mut().take());
            wrong.lock().expect("harness").append(&mut WRONG.with(|w| w.take()));
        }));
    }
    // How long one goes on before another has its turn.
    let sticky = *cx.t.pick(&[0u64, 2, 6, 14]);
    let order = std::cell::RefCell::new(Vec::new());
    let mut yields = 0u64;
    let mut left = 60;
    {
        let cxr = std::cell::RefCell::new(&mut *cx);
        let last = std::cell::Cell::new(usize::MAX);
        let start_seed = seed;
        sched::run(
            tasks,
            &|id| crate::seam::set_hash_seed(start_seed.wrapping_mul(13) + id as u64),
            &mut |ready| {
                let mut cx = cxr.borrow_mut();
                if let Some(i) = ready.iter().position(|x| *x == last.get()) {
                    if sticky > 0 && !cx.t.chance(16 - sticky, 16) {
                        order.borrow_mut().push(ready[i]);
                        return i;
                    }
                }
                let i = cx.t.draw(ready.len() as u64) as usize;
                last.set(ready[i]);
                order.borrow_mut().push(ready[i]);
                i
            },
            &mut |_, kind, _| {
                yields += 1;
                if nests && kind != "op" && left > 0 {
                    let mut cx = cxr.borrow_mut();
                    if cx.t.chance(1, 96) {
                        left -= 1;
                        cx.count("operations in the middle of others");
                        return NEST + cx.t.draw(flat.len() as u64);
                    }
                }
                if !faults {
                    return GO;
                }
                let mut cx = cxr.borrow_mut();
                let d = cx.t.draw(400);
                let d = match (kind, d) {
                    ("write", 390..=391) => SHORT,
                    ("write" | "read", 392..=394) => INTERRUPT,
                    ("write" | "read" | "ser", 395..=397) => FAIL,
                    ("write" | "read" | "ser" | "de" | "copy", 398..=399) => DIE,
                    _ => GO,
                };
                match (kind, d) {
                    (_, GO) => {}
                    (_, SHORT) => cx.fault("short write"),
                    (_, INTERRUPT) => cx.fault("transfer interrupted"),
                    ("ser", FAIL) => cx.fault("extension failed"),
                    (_, FAIL) => cx.fault("stream failed"),
                    ("ser" | "de" | "copy", _) => cx.fault("extension panicked"),
                    _ => cx.fault("thread panicked in the middle of a transfer"),
                }
                d
            },
        );
    }
    let order = order.into_inner();
    let mut switches = 0;
    for (i, id) in order.iter().enumerate() {
        if i == 0 || order[i - 1] != *id {
            switches += 1;
            cx.step(*id as u64 + (i as u64) * 8, "runs");
        }
    }
    cx.add("yield points", yields);
    cx.add("switches between threads", switches);
    cx.nontrivial |= switches > n as u64;

    if let Some(w) = wrong.into_inner().unwrap_or_default().first() {
        return cx.fail(w.clone());
    }
    for (id, (plan, done)) in plans.iter().zip(&results).enumerate() {
        let done = done.lock().expect("harness");
        if done.len() != plan.len() {
            return cx.fail(format!("thread {id} ended after {} of {} operations", done.len(), plan.len()));
        }
        for (i, op) in plan.iter().enumerate() {
            let (want, d) = (&alone[id][i], &done[i]);
            cx.count("operations");
            cx.say(|| format!("thread {id}: {op:?} with {:?}", d.faults));
            let hurt = d.faults.iter().any(|f| *f == FAIL || *f == DIE);
            if !hurt {
                if d.got != *want {
                    return cx.fail(format!(
                        "thread {id}, {op:?}: alone it gets {}, among {n} threads it got {}",
                        brief(want),
                        brief(&d.got)
                    ));
                }
                continue;
            }
            cx.count("operations that were made to fail");
            let died = d.faults.contains(&DIE);
            let fine = match &d.got {
                Res1::Panic(e) => died && e.contains(PANIC),
                Res1::Err(e) => {
                    !died && (e.contains(IO_MSG) || e.contains(HOOK_MSG)) || matches!(want, Res1::Err(_))
                }
                _ => false,
            };
            if !fine {
                return cx.fail(format!(
                    "thread {id}, {op:?} with faults {:?} got {}",
                    d.faults,
                    brief(&d.got)
                ));
            }
            if let Res1::Bytes(w) = want {
                if !w.starts_with(&d.part) {
                    return cx.fail(format!("thread {id}, {op:?}: what was written is no prefix of the document"));
                }
            }
        }
    }
    // The Things are what they were, and so is what one gets from them.
    for (i, t) in things.iter().enumerate() {
        if let Some((path, d)) = j::diff(&before[i].0, &t.observe()) {
            return cx.fail(format!("shared Thing {i} changed: at /{}: {d}", path.join("/")));
        }
        if t.debug() != before[i].1 {
            return cx.fail(format!("shared Thing {i} looks different after it was shared"));
        }
    }
    for (plan, rs) in plans.iter().zip(&alone) {
        for (op, want) in plan.iter().zip(rs) {
            match p.call(|| perform(*op, &things, &docs).got) {
                Ok(r) if r == *want => {}
                x => {
                    return cx.fail(format!(
                        "{op:?} no longer gives {} after the threads ended: {}",
                        brief(want),
                        clip(&format!("{x:?}"), 300)
                    ))
                }
            }
        }
    }
    Ok(())
}

/// The process has lived through many operations that ended half-way before.
fn long_life(cx: &mut Cx, p: &Proc, things: &[Th], docs: &[Vec<u8>], sets: &[Set]) -> Run {
    let lens: Vec<u64> = things
        .iter()
        .map(|t| p.call(|| write_plain(&**t, Out::Compact).map_or(1, |b| b.len() as u64)).unwrap_or(1))
        .collect();
    let n = 10 + cx.t.draw(90);
    let seed = cx.t.subseed();
    let mut r = Rng::new(seed);
    // Mostly at one place, since a place that leaves something behind may be hard to find.
    let spot = r.next();
    for _ in 0..n {
        let at = if r.chance(2, 3) { spot } else { r.next() };
        let die = r.chance(2, 3);
        let kind = KINDS[r.below(KINDS.len() as u64) as usize];
        if r.chance(2, 3) {
            let thing = r.below(things.len() as u64) as usize;
            let pos = (at % lens[thing].max(1)) as usize;
            let stop = if die { Stop::Panic(pos) } else { Stop::Fail(pos, kind) };
            let mut sink = Sink::new(WHOLE_CUT, stop);
            let _ = p.call(|| things[thing].write(&mut sink, false).map_err(|e| e.to_string()));
            cx.fault(if die { "panic in an earlier write" } else { "earlier write failed" });
        } else {
            let doc = r.below(sets.len() as u64) as usize;
            let pos = (at % docs[doc].len() as u64) as usize;
            let end = match r.below(3) {
                _ if die => End::Panic(pos),
                0 => End::Eof(pos),
                _ => End::Fail(pos, kind),
            };
            let mut src = Source::new(&docs[doc], WHOLE_CUT, end);
            let _ = p.call(|| any::parse(sets[doc], Src::Reader(&mut src)).map(|_| ()).map_err(|e| e.to_string()));
            cx.fault(if die { "panic in an earlier read" } else { "earlier read failed" });
        }
        if r.chance(1, 3) {
            // The same in the middle of an extension.
            let nth = r.below(6);
            let thing = r.below(things.len() as u64) as usize;
            let doc = r.below(sets.len() as u64) as usize;
            let reads = r.chance(1, 2);
            let hit = p.call(|| {
                let hit = std::rc::Rc::new(std::cell::Cell::new(0));
                let h = hit.clone();
                set_hook(Some(Box::new(move |at, _| {
                    h.set(h.get() + 1);
                    if h.get() <= nth {
                        return true;
                    }
                    if die || at != HookAt::Ser {
                        panic!("{PANIC}");
                    }
                    false
                })));
                let _ = crate::seam::catching(|| {
                    if nth % 3 == 2 {
                        things[thing].copies().is_ok()
                    } else if reads {
                        any::parse(sets[doc], Src::Slice(&docs[doc])).is_ok()
                    } else {
                        things[thing].to_value().is_ok()
                    }
                });
                set_hook(None);
                hit.get() > nth
            });
            if hit == Ok(true) {
                cx.fault(if die { "extension panicked earlier" } else { "extension failed earlier" });
            }
        }
    }
    Ok(())
}

/// Things that come and go where others were before: each is still only equal to its like.
fn comings(cx: &mut Cx, p: &Proc, set: Set, b: &[u8]) -> Run {
    let Ok(doc) = j::parse(b) else { return Ok(()) };
    let seed = cx.t.subseed();
    let mut r = Rng::new(seed);
    let mut texts = Vec::new();
    let mut says = Vec::new();
    for i in 0..4 {
        let mut d = doc.clone();
        if i > 0 {
            super::hashes::mutate(&mut d, &mut r);
        }
        if let Meaning::Is(w) = gram::read(&d, set) {
            texts.push(foreign_text(&d, 0));
            says.push(w);
        }
    }
    if texts.is_empty() {
        return Ok(());
    }
    let rounds = 10 + cx.t.draw(40);
    // Mostly two of them take turns.
    let (mut x, mut y) = (0, 0);
    for _ in 0..rounds {
        match r.below(4) {
            0 => x = r.below(texts.len() as u64) as usize,
            1 => y = r.below(texts.len() as u64) as usize,
            2 => y = x,
            _ => {}
        }
        let swap = r.chance(1, 4);
        let (first, second) = if swap { (y, x) } else { (x, y) };
        let got = p.call(|| {
            let a = any::parse(set, Src::Slice(&texts[first])).map_err(|e| e.to_string())?;
            let b = any::parse(set, Src::Slice(&texts[second])).map_err(|e| e.to_string())?;
            Ok::<_, String>((a.same(&*b), b.same(&*a), j::diff(&a.observe(), &b.observe())))
        });
        cx.count("comparisons of Things that come and go");
        let equal = j::diff(&says[first], &says[second]);
        match got {
            Ok(Ok((ab, ba, diff))) => {
                if ab != equal.is_none() || ba != ab || diff.is_none() != ab {
                    return cx.fail(format!(
                        "a process in which many Things came and went compares two with the difference {equal:?} and says equal: {ab} and {ba}, seen difference: {diff:?}"
                    ));
                }
            }
            Ok(Err(e)) => return cx.fail(format!("a description is refused after others came and went: {e}")),
            Err(e) => return cx.fail(format!("panic after Things came and went: {e}")),
        }
    }
    Ok(())
}

fn brief(r: &Res1) -> String {
    match r {
        Res1::Bytes(b) => format!("{} bytes {}", b.len(), clip(&String::from_utf8_lossy(b), 400)),
        x => clip(&format!("{x:?}"), 400),
    }
}
