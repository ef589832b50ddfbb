//! Reading from and writing to streams that misbehave.

use std::io::Write;

use simcore::{
    cx::{Cx, Run},
    gen::G,
    gram::{Set, READERS},
    io::{End, Sink, Source, Stop, IO_MSG, KILLED, KINDS},
};

use super::*;
use crate::any::{self, Src, BUILDERS};

/// A document that has to be readable by a node with `set`, and that node.
pub fn some_doc(cx: &mut Cx, p: &Proc) -> Res<Option<(Set, Vec<u8>)>> {
    if cx.t.chance(1, 2) {
        let set = *cx.t.pick(BUILDERS);
        let m = Made::new(cx, set);
        let want = m.want();
        note(cx, &want);
        let Ok(t) = build_on(cx, p, &m)? else {
            return Ok(None);
        };
        let out = pick_out(cx);
        let b = write_on(cx, p, &t, out)?;
        let set = if cx.t.chance(1, 2) { set } else { *cx.t.pick(READERS) };
        Ok(Some((set, b)))
    } else {
        let set = *cx.t.pick(READERS);
        let doc = G::new(&mut cx.t, set, false).doc();
        note(cx, &doc);
        let style = cx.t.subseed();
        let b = foreign_text(&doc, style);
        cx.bytes(&b);
        Ok(Some((set, b)))
    }
}

/// The error as its reader sees it.
pub fn kind_of(e: &serde_json::Error) -> String {
    if e.is_io() {
        format!("io {:?}", e.io_error_kind())
    } else if e.is_eof() {
        "eof".into()
    } else if e.is_syntax() {
        "syntax".into()
    } else {
        "data".into()
    }
}

pub fn c04(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    let Some((set, b)) = some_doc(cx, &p)? else {
        return Ok(());
    };
    let whole = must_parse(cx, &p, set, &b, In::Slice, "a node")?;
    let says = whole.observe();
    cx.say(|| format!("document read with {set:?}: {}", clip(&String::from_utf8_lossy(&b), 4000)));
    let same = |cx: &mut Cx, t: &Th, how: &str| -> Run {
        if !t.same(&*whole) || !whole.same(&**t) {
            let d = simcore::j::diff(&says, &t.observe());
            return cx.fail(format!(
                "{how}: the Thing differs from the one read whole ({d:?}); document: {}",
                clip(&String::from_utf8_lossy(&b), 1500)
            ));
        }
        Ok(())
    };

    // In pieces and with interruptions.
    for _ in 0..1 + cx.t.draw(3) {
        let cut = pick_cut(cx);
        let mut src = Source::new(&b, cut, End::Whole);
        let r = p.call(|| any::parse(set, Src::Reader(&mut src)).map(Th::from).map_err(|e| e.to_string()));
        cx.count("reads in pieces");
        if src.interrupted > 0 {
            cx.add("fault: read interrupted", src.interrupted);
            cx.nontrivial = true;
        }
        cx.add("fault: short read", src.reads);
        cx.step(src.reads, "read");
        match r {
            Err(e) => return cx.fail(format!("panic while reading in pieces ({cut:?}): {e}")),
            Ok(Err(e)) => {
                return cx.fail(format!(
                    "reading in pieces ({cut:?}) with {set:?} fails: {e}; document: {}",
                    clip(&String::from_utf8_lossy(&b), 1500)
                ))
            }
            Ok(Ok(t)) => same(cx, &t, "in pieces")?,
        }
    }

    // Cut off at some byte.
    let n = b.len();
    let mut at: Vec<usize> = vec![n - 1, n.saturating_sub(2), 0, 1];
    let pseed = cx.t.subseed();
    let mut r = Rng::new(pseed);
    if n < 8000 && r.chance(1, 25) {
        // A peer that never gets it through, and always fails about there.
        cx.count("peers that never get it through");
        let (lo, wide) = (r.below(n as u64), 1 + r.below(40));
        for _ in 0..600 {
            at.push(((lo + r.below(wide)) as usize).min(n - 1));
        }
    } else {
        for _ in 0..if cx.thorough { 120 } else { 30 } {
            at.push(r.below(n as u64) as usize);
        }
    }
    for i in 0..at.len() {
        let pos = at[i];
        let kind = KINDS[r.below(KINDS.len() as u64) as usize];
        let end = match r.below(6) {
            0 => End::Once(pos, kind),
            1 | 2 => End::Fail(pos, kind),
            _ => End::Eof(pos),
        };
        let fails = !matches!(end, End::Eof(_));
        let cut = Cut {
            max: [0, 1, 3, 50][r.below(4) as usize],
            interrupts: [0, 0, 3][r.below(3) as usize],
            seed: r.next(),
        };
        cx.fault(match end {
            End::Once(..) => "stream fails once",
            End::Fail(..) => "stream fails",
            _ => "stream ends",
        });
        cx.step(pos as u64, "cut");
        let mut src = Source::new(&b, cut, end);
        let res = p.call(|| any::parse(set, Src::Reader(&mut src)).map(|t| t.observe()));
        let doc = || clip(&String::from_utf8_lossy(&b[..pos]), 1500);
        match res {
            Err(e) => return cx.fail(format!("panic while reading {end:?} of {n}: {e}; read: {}", doc())),
            Ok(Ok(t)) => {
                return cx.fail(format!(
                    "a Thing was made of a document cut short ({end:?} of {n}) with {set:?}: {}; read: {}",
                    clip(&t.text(), 300),
                    doc()
                ))
            }
            Ok(Err(e)) => {
                let want = if fails { format!("io {:?}", Some(kind)) } else { "eof".to_string() };
                let got = kind_of(&e);
                if got != want || (fails && !e.to_string().contains(IO_MSG)) {
                    return cx.fail(format!(
                        "{end:?} of {n} with {set:?} was reported as {got} ({e}), not {want}; read: {}",
                        doc()
                    ));
                }
            }
        }
    }
    // A whole prefix given at once is no different.
    for _ in 0..3 {
        let pos = r.below(n as u64) as usize;
        match p.call(|| any::parse(set, Src::Slice(&b[..pos])).map(|t| t.observe())) {
            Err(e) => return cx.fail(format!("panic while reading the first {pos} of {n} bytes: {e}")),
            Ok(Ok(_)) => return cx.fail(format!("a Thing was made of the first {pos} of {n} bytes")),
            Ok(Err(e)) if e.is_eof() => {}
            Ok(Err(e)) => {
                return cx.fail(format!(
                    "the first {pos} of {n} bytes were reported as {}, not as cut short: {e}; read: {}",
                    kind_of(&e),
                    clip(&String::from_utf8_lossy(&b[..pos]), 1500)
                ))
            }
        }
    }
    // Nothing of that stays behind on the node.
    let again = must_parse(cx, &p, set, &b, In::Reader((7, 1, seed)), "a node that read broken streams")?;
    same(cx, &again, "after broken reads")?;

    // Several descriptions on one stream.
    if cx.t.chance(1, 3) {
        let k = 2 + cx.t.draw(2) as usize;
        let mut all = Vec::new();
        for _ in 0..k {
            all.extend_from_slice(&b);
            all.push(b'\n');
        }
        let broken = cx.t.chance(1, 2);
        let end = if broken {
            let pos = (k - 1) * (n + 1) + 1 + cx.t.draw(n as u64 - 1) as usize;
            cx.fault("stream ends in a later description");
            End::Eof(pos)
        } else {
            End::Whole
        };
        let cut = pick_cut(cx);
        let mut src = Source::new(&all, cut, end);
        let r = match p.call(|| any::parse_stream(set, &mut src)) {
            Ok(r) => r,
            Err(e) => return cx.fail(format!("panic while reading a stream of descriptions: {e}")),
        };
        cx.count("streams of descriptions");
        if r.len() != k {
            return cx.fail(format!("{} of {k} descriptions came out of a stream", r.len()));
        }
        for (i, x) in r.into_iter().enumerate() {
            match x {
                Ok(t) => {
                    if broken && i == k - 1 {
                        return cx.fail("a Thing was made of a description cut short on a stream");
                    }
                    same(cx, &Th::from(t), "on a stream of descriptions")?;
                }
                Err(e) => {
                    if !broken || i != k - 1 || !e.is_eof() {
                        return cx.fail(format!("description {i} of {k} on a stream: {e}"));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c05(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    // A Thing that was built, or one that was read.
    let t = if cx.t.chance(1, 2) {
        let set = *cx.t.pick(BUILDERS);
        let m = Made::new(cx, set);
        let want = m.want();
        note(cx, &want);
        match build_on(cx, &p, &m)? {
            Ok(t) => t,
            Err(_) => return Ok(()),
        }
    } else {
        match some_doc(cx, &p)? {
            Some((set, b)) => must_parse(cx, &p, set, &b, In::Slice, "a node")?,
            None => return Ok(()),
        }
    };
    let before = t.observe();
    let looks = p.call(|| t.debug()).ok();
    let rounds = if cx.thorough { 30 } else { 10 };
    let pretty = cx.t.chance(1, 3);
    let whole = write_on(cx, &p, &t, if pretty { Out::Pretty } else { Out::Compact })?;
    let n = whole.len();
    cx.say(|| format!("document: {}", clip(&String::from_utf8_lossy(&whole), 4000)));
    for _ in 0..rounds {
        let cut = pick_cut(cx);
        let pos = match cx.t.draw(4) {
            0 => n - 1 - cx.t.draw(n.min(3) as u64) as usize,
            1 => cx.t.draw(n.min(8) as u64) as usize,
            _ => cx.t.draw(n as u64) as usize,
        };
        let stop = match cx.t.draw(6) {
            5 => Stop::Once(pos, pick_kind(cx)),
            0 => Stop::Never,
            1 => Stop::Full(pos),
            2 => Stop::Panic(pos),
            3 => Stop::Flush(pick_kind(cx)),
            _ => Stop::Fail(pos, pick_kind(cx)),
        };
        // Straight to the sink, or through a buffer of its own.
        let buffer = match cx.t.draw(3) {
            0 => None,
            1 => Some(1 + cx.t.draw(64) as usize),
            _ => Some(64 + cx.t.draw(8000) as usize),
        };
        let mut sink = Sink::new(cut, stop);
        let r = p.call(|| match buffer {
            None => t.write(&mut sink, pretty).map_err(|e| {
                (e.is_io(), e.io_error_kind(), e.to_string())
            }),
            Some(cap) => {
                let mut w = std::io::BufWriter::with_capacity(cap, &mut sink);
                let r = t
                    .write(&mut w, pretty)
                    .map_err(|e| (e.is_io(), e.io_error_kind(), e.to_string()))
                    .and_then(|_| w.flush().map_err(|e| (true, Some(e.kind()), e.to_string())));
                // What is left in the buffer is lost with the process.
                let (_, _) = w.into_parts();
                r
            }
        });
        cx.add("fault: write interrupted", sink.interrupted);
        cx.add("fault: short write", sink.short);
        cx.count("writes");
        cx.step(pos as u64, "write");
        let what = format!("{stop:?}, {cut:?}, buffer {buffer:?}, {n} bytes");
        if !whole.starts_with(&sink.data) {
            let i = sink.data.iter().zip(&whole).take_while(|(a, b)| a == b).count();
            return cx.fail(format!(
                "what was written is no prefix of the document ({what}); they differ at byte {i}: {:?} / {:?}",
                clip(&String::from_utf8_lossy(&sink.data[i.saturating_sub(20)..]), 80),
                clip(&String::from_utf8_lossy(&whole[i.saturating_sub(20).min(n)..]), 80)
            ));
        }
        let took = sink.data.len() == n;
        match r {
            Err(e) if e.contains(KILLED) => cx.fault("crash while writing"),
            Err(e) => return cx.fail(format!("panic while writing ({what}): {e}")),
            Ok(Ok(())) => {
                let flush_lost = matches!(stop, Stop::Flush(_)) && buffer.is_some();
                if !took || flush_lost {
                    return cx.fail(format!(
                        "the write was reported as a success, {} of {n} bytes were taken ({what})",
                        sink.data.len()
                    ));
                }
            }
            Ok(Err((io, kind, msg))) => {
                if !sink.stopped {
                    return cx.fail(format!("a write failed without a fault ({what}): {msg}"));
                }
                let want = match stop {
                    Stop::Fail(_, k) | Stop::Once(_, k) | Stop::Flush(k) => Some(k),
                    Stop::Full(_) => Some(ErrorKind::WriteZero),
                    _ => None,
                };
                cx.fault(match stop {
                    Stop::Full(_) => "sink full",
                    Stop::Flush(_) => "flush failed",
                    Stop::Once(..) => "sink failed once",
                    _ => "sink failed",
                });
                if !io || kind != want {
                    return cx.fail(format!(
                        "a failure of the sink was reported as {kind:?} ({msg}), not {want:?} ({what})"
                    ));
                }
            }
        }
        // The Thing is what it was, and says so when asked again.
        if cx.t.chance(1, 3) {
            let now = t.observe();
            if let Some(d) = simcore::j::diff(&before, &now) {
                return cx.fail(format!("the Thing changed by being written ({what}): {d:?}"));
            }
            if p.call(|| t.debug()).ok() != looks {
                return cx.fail(format!("the Thing no longer looks as before a write ({what})"));
            }
        }
        let cut2 = pick_cut(cx);
        let mut sink = Sink::new(cut2, Stop::Never);
        match p.call(|| t.write(&mut sink, pretty).map_err(|e| e.to_string())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return cx.fail(format!("writing again to a working sink fails: {e} (after {what})")),
            Err(e) => return cx.fail(format!("panic while writing again: {e} (after {what})")),
        }
        if sink.data != whole {
            return cx.fail(format!(
                "writing again gave {} bytes, not the {n} of the document (after {what}): {}",
                sink.data.len(),
                clip(&String::from_utf8_lossy(&sink.data), 600)
            ));
        }
        cx.count("writes retried");
    }
    Ok(())
}
