//! Descriptions inside of other messages.

use simcore::{
    cx::{clip, Cx, Run},
    gen::G,
    gram::{self, Meaning, Set, READERS},
    io::{End, Source, IO_MSG, KINDS},
    j::{self, J},
    tape::Rng,
};

use super::*;
use crate::{
    any::{Src, BUILDERS},
    wrap::{around, Wrap, WRAPS},
};

/// Members of a description that may be null instead of absent.
const OPTIONAL: &[&str] = &[
    "id", "@type", "titles", "description", "descriptions", "version", "created", "modified", "support", "base",
    "properties", "actions", "events", "links", "forms", "uriVariables", "profile", "schemaDefinitions",
];

fn clipped(b: &[u8]) -> String {
    clip(&String::from_utf8_lossy(b), 1500)
}

/// Reads a message on a node.
fn open(cx: &mut Cx, p: &Proc, set: Set, wrap: Wrap, b: &[u8], how: In) -> Res<Result<Option<Vec<Th>>, String>> {
    let r = p.call(|| {
        match how {
            In::Slice => any::parse_message(set, wrap, Src::Slice(b)),
            In::Value => serde_json::from_slice(b).and_then(|v| any::parse_message(set, wrap, Src::Value(v))),
            In::Reader(c) => {
                any::parse_message(set, wrap, Src::Reader(&mut Source::new(b, cut_of(c), End::Whole)))
            }
        }
        .map(|l| l.map(|l| l.into_iter().map(Th::from).collect()))
        .map_err(|e| e.to_string())
    });
    cx.count("messages opened");
    match r {
        Ok(r) => Ok(r),
        Err(e) => cx.fail(format!("panic while reading a message ({wrap:?}, {set:?}, {how:?}): {e}; message: {}", clipped(b))),
    }
}

/// Every description in it has to be what it is alone.
fn judge(cx: &mut Cx, p: &Proc, set: Set, wrap: Wrap, b: &[u8], alone: &[Th]) -> Res<Vec<Th>> {
    let how = pick_in(cx);
    let what = || format!("{wrap:?} ({set:?}, {how:?}): {}", clipped(b));
    let got = match open(cx, p, set, wrap, b, how)? {
        Ok(Some(l)) => l,
        Ok(None) => return cx.fail(format!("a message with descriptions is taken for another one: {}", what())),
        Err(e) => return cx.fail(format!("a message with intact descriptions cannot be read: {e}: {}", what())),
    };
    if got.len() != alone.len() {
        return cx.fail(format!("{} of {} descriptions came out of a message: {}", got.len(), alone.len(), what()));
    }
    for (i, (t, a)) in got.iter().zip(alone).enumerate() {
        if let Some((path, d)) = j::diff(&a.observe(), &t.observe()) {
            return cx.fail(format!(
                "description {i} in a message says something else than alone: at /{}: {d}: {}",
                path.join("/"),
                what()
            ));
        }
        if !t.same(&**a) || !a.same(&**t) {
            return cx.fail(format!("description {i} in a message is not equal to the one alone: {}", what()));
        }
    }
    Ok(got)
}

pub fn run(cx: &mut Cx) -> Run {
    let base = cx.t.subseed();
    let (server, client) = (Proc::spawn(base), Proc::spawn(base ^ 0x31));
    cx.mark(base);
    let wset = if cx.t.chance(1, 2) { *cx.t.pick(BUILDERS) } else { *cx.t.pick(READERS) };
    let set = if cx.t.chance(1, 2) { wset } else { *cx.t.pick(READERS) };
    let wrap = *cx.t.pick(WRAPS);
    let k = if wrap.single() { 1 } else { *cx.t.pick(&[2usize, 1, 3, 0]) };
    // The descriptions, as texts of their own.
    let mut docs: Vec<J> = Vec::new();
    let mut held: Vec<Th> = Vec::new();
    for _ in 0..k {
        if BUILDERS.contains(&wset) && cx.t.chance(1, 2) {
            let m = Made::new(cx, wset);
            let Ok(t) = build_on(cx, &server, &m)? else { return Ok(()) };
            let b = write_on(cx, &server, &t, Out::Compact)?;
            let Ok(d) = j::parse(&b) else {
                // Another property's question.
                cx.count("improper text");
                return Ok(());
            };
            docs.push(d);
        } else {
            docs.push(G::new(&mut cx.t, wset, false).doc());
        }
        let d = docs.last_mut().expect("harness");
        // Some implementations write what they do not have.
        if cx.t.chance(1, 3) {
            for _ in 0..*cx.t.pick(&[1, 2, 4]) {
                let k = *cx.t.pick(OPTIONAL);
                if d.get(k).is_none() {
                    d.set(k, J::Null);
                    cx.count("members that are null");
                }
            }
        }
        if d.depth() + Wrap::LEVELS > 120 {
            // Readers give up at 128 levels.
            cx.count("too deep for a message");
            return Ok(());
        }
        note(cx, d);
        let b = foreign_text(d, 0);
        cx.bytes(&b);
        held.push(must_parse(cx, &server, wset, &b, In::Slice, "the server")?);
    }
    cx.nontrivial = true;

    // The server answers.
    let refs: Vec<&dyn AnyThing> = held.iter().map(|t| &**t).collect();
    let msg = match server.call(|| any::write_message(wset, wrap, &refs).map_err(|e| e.to_string())) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return cx.fail(format!("descriptions cannot be written in a message ({wrap:?}, {wset:?}): {e}")),
        Err(e) => return cx.fail(format!("panic while writing a message ({wrap:?}, {wset:?}): {e}")),
    };
    cx.bytes(&msg);
    cx.step(wrap as u64, "message");
    cx.say(|| format!("{wrap:?} of {k} from {wset:?} to {set:?}: {}", clip(&String::from_utf8_lossy(&msg), 6000)));
    let mut texts = Vec::new();
    for t in &held {
        let b = write_on(cx, &server, t, Out::Compact)?;
        match j::parse(&b) {
            Ok(d) => texts.push(d),
            Err(_) => {
                cx.count("improper text");
                return Ok(());
            }
        }
    }
    match j::parse(&msg) {
        Err(e) => return cx.fail(format!("a message ({wrap:?}, {wset:?}) is no JSON text: {e:?}: {}", clipped(&msg))),
        Ok(m) => {
            if let Some((path, d)) = j::diff(&around(wrap, &texts).sorted(), &m.sorted()) {
                return cx.fail(format!(
                    "descriptions are written differently in a message ({wrap:?}, {wset:?}): at /{}: {d}: {}",
                    path.join("/"),
                    clipped(&msg)
                ));
            }
        }
    }
    // What the client would read from each of them alone.
    let mut alone = Vec::new();
    for d in &texts {
        alone.push(must_parse(cx, &client, set, &foreign_text(d, 0), In::Slice, "a client")?);
    }
    judge(cx, &client, set, wrap, &msg, &alone)?;

    // A message of another implementation, and what becomes of it on its way.
    let style = cx.t.subseed();
    let foreign = foreign_text(&around(wrap, &docs), style);
    cx.bytes(&foreign);
    let mut orig = Vec::new();
    for d in &docs {
        orig.push(must_parse(cx, &server, wset, &foreign_text(d, 0), In::Slice, "a node")?);
    }
    let opened = judge(cx, &server, wset, wrap, &foreign, &orig)?;
    // Repacked by a gateway, into any message for as many.
    let fit: Vec<Wrap> = WRAPS.iter().copied().filter(|w| !w.single() || k == 1).collect();
    let next = *cx.t.pick(&fit);
    let refs: Vec<&dyn AnyThing> = opened.iter().map(|t| &**t).collect();
    match server.call(|| any::write_message(wset, next, &refs).map_err(|e| e.to_string())) {
        Ok(Ok(b)) => {
            cx.step(next as u64, "repacked");
            judge(cx, &server, wset, next, &b, &orig)?;
        }
        Ok(Err(e)) => return cx.fail(format!("descriptions cannot be written in a message ({next:?}, {wset:?}): {e}")),
        Err(e) => return cx.fail(format!("panic while writing a message ({next:?}, {wset:?}): {e}")),
    }

    let mut r = Rng::new(base ^ 0x99);
    // Transfers that do not come to their end.
    let n = foreign.len();
    for _ in 0..if cx.thorough { 30 } else { 8 } {
        let pos = if r.chance(1, 6) { n - 1 } else { r.below(n as u64) as usize };
        let kind = KINDS[r.below(KINDS.len() as u64) as usize];
        let end = match r.below(5) {
            0 => End::Once(pos, kind),
            1 => End::Fail(pos, kind),
            _ => End::Eof(pos),
        };
        let fails = !matches!(end, End::Eof(_));
        cx.fault(if fails { "transfer fails" } else { "transfer ends early" });
        let cut = Cut {
            max: [0, 1, 3, 50][r.below(4) as usize],
            interrupts: [0, 0, 3][r.below(3) as usize],
            seed: r.next(),
        };
        let mut src = Source::new(&foreign, cut, end);
        let what = || format!("{wrap:?} ({wset:?}) cut short ({end:?} of {n}): {}", clipped(&foreign[..pos]));
        match server.call(|| any::parse_message(wset, wrap, Src::Reader(&mut src)).map(|_| ())) {
            Err(e) => return cx.fail(format!("panic: {e}: {}", what())),
            Ok(Ok(())) => return cx.fail(format!("a message was read that had not come to its end: {}", what())),
            Ok(Err(e)) => {
                let want = if fails { format!("io {:?}", Some(kind)) } else { "eof".to_string() };
                let got = streams::kind_of(&e);
                if got != want || (fails && !e.to_string().contains(IO_MSG)) {
                    return cx.fail(format!("reported as {got} ({e}), not {want}: {}", what()));
                }
            }
        }
    }
    // One of the descriptions is damaged.
    for _ in 0..if cx.thorough { 16 } else { 5 } {
        if k == 0 {
            break;
        }
        let i = r.below(k as u64) as usize;
        let mut bad = docs.clone();
        let other = docs[r.below(k as u64) as usize].clone();
        for _ in 0..1 + r.below(2) {
            let kind = corrupt::tamper(&mut bad[i], &other, &mut r);
            cx.fault(kind);
        }
        if !matches!(bad[i], J::Obj(_)) || bad[i].depth() + Wrap::LEVELS > 120 {
            continue;
        }
        let b = foreign_text(&around(wrap, &bad), style);
        cx.bytes(&b);
        let how = pick_in(cx);
        let got = open(cx, &server, wset, wrap, &b, how)?;
        let what = || format!("{wrap:?} ({wset:?}, {how:?}) with description {i} damaged: {}", clipped(&b));
        let means = gram::read(&bad[i], wset);
        let got = match got {
            Err(e) => {
                cx.count("damaged messages refused");
                if let Meaning::Is(_) = means {
                    return cx.fail(format!("refused although nothing is wrong with it ({e}): {}", what()));
                }
                continue;
            }
            Ok(None) => return cx.fail(format!("taken for another message: {}", what())),
            Ok(Some(l)) => l,
        };
        cx.count("damaged messages read");
        match means {
            Meaning::Bad(e) => return cx.fail(format!("read although it is wrong ({e}): {}", what())),
            Meaning::Is(w) | Meaning::ErrOr(w) => {
                if let Some((path, d)) = j::diff(&w, &got[i].observe()) {
                    return cx.fail(format!("not what the text says: at /{}: {d}: {}", path.join("/"), what()));
                }
            }
            Meaning::Unsure => cx.count("damaged messages of unsure meaning"),
        }
        for (h, t) in got.iter().enumerate().filter(|x| x.0 != i) {
            if !t.same(&*orig[h]) {
                return cx.fail(format!("description {h} changed because of another one: {}", what()));
            }
        }
    }
    // And the intact one again.
    judge(cx, &server, wset, wrap, &foreign, &orig)?;
    Ok(())
}
