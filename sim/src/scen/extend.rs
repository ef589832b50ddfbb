//! Extensions next to each other, on nodes that know others, and extensions that fail.

use std::cell::Cell;
use std::rc::Rc;

use simcore::{
    cx::{clip, Cx, Run},
    gen::G,
    gram::{self, Set, READERS},
    j,
};

use super::*;
use crate::{
    any::{self, Src},
    exts::{with_hook, HookAt, HOOK_MSG},
};

const PANIC: &str = "extension panicked on purpose";

/// What the extension does, the `n`-th time its code of this kind runs.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Does {
    Nothing,
    Fails(u64),
    Panics(u64),
}

/// Runs `f` with extensions that do so; gives how often their code ran and what value it was at
/// when it failed.
fn with_ext<R>(at: HookAt, does: Does, f: impl FnOnce() -> R) -> (R, u64, Option<String>) {
    let n = Rc::new(Cell::new(0u64));
    let hit = Rc::new(std::cell::RefCell::new(None));
    let (n2, hit2) = (n.clone(), hit.clone());
    let hook = Box::new(move |k: HookAt, v: &str| {
        if k != at {
            return true;
        }
        let i = n2.get();
        n2.set(i + 1);
        match does {
            Does::Fails(x) if x == i => {
                *hit2.borrow_mut() = Some(v.to_string());
                false
            }
            Does::Panics(x) if x == i => panic!("{PANIC}"),
            _ => true,
        }
    });
    let r = with_hook(hook, f);
    let h = hit.borrow().clone();
    (r, n.get(), h)
}

pub fn run(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    cx.mark(seed);
    if cx.t.chance(3, 5) {
        built(cx, &p)
    } else {
        read(cx, &p)
    }
}

fn built(cx: &mut Cx, p: &Proc) -> Run {
    let set = *cx.t.pick(&[Set::E2, Set::EP]);
    let m = Made::new(cx, set);
    let want = m.want();
    note(cx, &want);
    // An extension that panics while its contributions are made and checked.
    if cx.t.chance(1, 4) {
        let n = cx.t.draw(6);
        let r = p.call(|| {
            let st = &mut St::new(m.style);
            with_ext(HookAt::Clone, Does::Panics(n), || {
                any::build(m.set, &m.title, &m.ext, &m.calls, st, &mut || {}).is_ok()
            })
        });
        match r {
            Ok(_) => {}
            Err(e) if e.contains(PANIC) => cx.fault("extension panics while it is copied"),
            Err(e) => return cx.fail(format!("panic while building: {e}")),
        }
    }
    let Ok(t) = build_on(cx, p, &m)? else {
        return Ok(());
    };
    expect_all(cx, &want, &t.observe(), &|| format!("built with {set:?}"))?;
    // The standard members are those of the same Thing without extensions.
    let plain = Made { set: Set::Nil, ..m.clone() };
    match build_on(cx, p, &plain)? {
        Err(e) => return cx.fail(format!("accepted with {set:?} and refused without extensions: {e}")),
        Ok(n) => {
            cx.count("built without extensions");
            expect_all(cx, &plain.want(), &n.observe(), &|| "built without extensions".into())?;
        }
    }
    let out = pick_out(cx);
    let b = write_on(cx, p, &t, out)?;
    let Ok(doc) = j::parse(&b) else {
        cx.count("improper text");
        return Ok(());
    };
    cx.say(|| format!("published with {set:?}: {}", clip(&doc.text(), 6000)));
    let meant = simcore::gen::fold(&m.title, &m.ext, &m.calls);
    others(cx, p, &b, &meant)?;
    if cx.t.chance(1, 3) {
        pieces(cx, p, set, &b)?;
    }
    failing(cx, p, set, &t, &b)
}

fn read(cx: &mut Cx, p: &Proc) -> Run {
    let set = *cx.t.pick(&[Set::A, Set::E1, Set::E2, Set::EP, Set::Http, Set::Coap, Set::Mqtt]);
    let doc = G::new(&mut cx.t, set, false).doc();
    note(cx, &doc);
    let style = cx.t.subseed();
    let b = foreign_text(&doc, style);
    cx.say(|| format!("document for {set:?}: {}", clip(&doc.text(), 6000)));
    others(cx, p, &b, &doc)?;
    let t = must_parse(cx, p, set, &b, In::Slice, "a node")?;
    if cx.t.chance(1, 3) {
        pieces(cx, p, set, &b)?;
    }
    failing(cx, p, set, &t, &b)
}

fn expect_all(cx: &mut Cx, want: &J, got: &J, what: &dyn Fn() -> String) -> Run {
    if let Some((path, d)) = j::diff(want, got) {
        return cx.fail(format!("{}: at /{}: {}", what(), path.join("/"), clip(&d, 400)));
    }
    Ok(())
}

/// A node takes the pieces of its extensions, each on its own, and gives them back.
fn pieces(cx: &mut Cx, p: &Proc, set: Set, b: &[u8]) -> Run {
    let r = p.call(|| {
        let mut t = any::parse(set, Src::Slice(b)).map_err(|e| e.to_string())?;
        let before = t.observe();
        let n = t.apart()?;
        match j::diff(&before, &t.observe()) {
            Some((path, d)) => Err(format!("at /{}: {}", path.join("/"), clip(&d, 400))),
            None => Ok(n),
        }
    });
    match r {
        Ok(Ok(n)) => {
            cx.add("extension pieces taken from their lists", n);
            Ok(())
        }
        Ok(Err(e)) => cx.fail(format!("taking the extensions of {set:?} apart: {e}")),
        Err(e) => cx.fail(format!("panic while taking extensions apart: {e}")),
    }
}

/// Every node reads the standard members and those it knows.
fn others(cx: &mut Cx, p: &Proc, b: &[u8], meant: &J) -> Run {
    let all = cx.t.chance(1, 2);
    for r in READERS {
        if !all && cx.t.chance(1, 2) {
            continue;
        }
        let want = match gram::canon(meant, *r) {
            Ok(w) => w,
            Err(e) => panic!("harness: description without meaning to {r:?}: {e}"),
        };
        let how = pick_in(cx);
        let t = must_parse(cx, p, *r, b, how, "a node with other extensions")?;
        cx.count("read with other extensions");
        expect_all(cx, &want, &t.observe(), &|| {
            format!("read with {r:?} ({how:?}); document: {}", clip(&String::from_utf8_lossy(b), 1200))
        })?;
        // And relays them.
        if cx.t.chance(1, 2) {
            let out = pick_out(cx);
            let b2 = write_on(cx, p, &t, out)?;
            let t2 = must_parse(cx, p, *r, &b2, In::Slice, "a node with the same extensions")?;
            expect_all(cx, &want, &t2.observe(), &|| format!("relayed with {r:?}"))?;
        }
    }
    Ok(())
}

/// Is the extension that says this inside a type-specific part of a data schema? What fails there
/// is dropped (recorded finding).
fn drops(doc: &J, v: &str) -> bool {
    fn go(x: &J, v: &str, depth: usize, inside: bool) -> bool {
        match x {
            J::Obj(m) => m.iter().any(|(k, y)| {
                if k.ends_with('H') && y.str() == Some(v) {
                    return inside || k == "a:obH" || k == "b:obH" || k == "a:arH";
                }
                let into = (k == "properties" && depth > 0) || k == "items";
                go(y, v, depth + 1, inside || into)
            }),
            J::Arr(a) => a.iter().any(|y| go(y, v, depth + 1, inside)),
            _ => false,
        }
    }
    go(doc, v, 0, false)
}

fn failing(cx: &mut Cx, p: &Proc, set: Set, t: &Th, b: &[u8]) -> Run {
    let before = t.observe();
    // While it is written.
    let whole = write_on(cx, p, t, Out::Compact)?;
    let value = write_on(cx, p, t, Out::Value)?;
    let calls = match p.call(|| with_ext(HookAt::Ser, Does::Nothing, || write_plain(&**t, Out::Compact).is_ok())) {
        Ok((true, n, _)) => n,
        x => return cx.fail(format!("writing with idle extensions: {x:?}")),
    };
    cx.add("extension calls while writing", calls);
    let rounds = if cx.thorough { 8 } else { 3 };
    for _ in 0..if calls > 0 { rounds } else { 0 } {
        let n = cx.t.draw(calls);
        let panics = cx.t.chance(1, 3);
        let does = if panics { Does::Panics(n) } else { Does::Fails(n) };
        let via_value = cx.t.chance(1, 3);
        let cut = pick_cut(cx);
        let mut sink = Sink::new(cut, Stop::Never);
        let r = p.call(|| {
            with_ext(HookAt::Ser, does, || {
                if via_value {
                    t.to_value().map(|_| ()).map_err(|e| e.to_string())
                } else {
                    t.write(&mut sink, false).map_err(|e| e.to_string())
                }
            })
            .0
        });
        cx.step(n, "extension fails while it is written");
        cx.fault(if panics { "extension panics while it is written" } else { "extension fails while it is written" });
        match r {
            Err(e) if panics && e.contains(PANIC) => {}
            Err(e) => return cx.fail(format!("panic while writing with an extension that {does:?}: {e}")),
            Ok(Err(e)) if !panics && e.contains(HOOK_MSG) => {}
            Ok(r) => {
                return cx.fail(format!(
                    "writing with {set:?} and an extension that {does:?} of {calls} gave {r:?}; document: {}",
                    clip(&String::from_utf8_lossy(&whole), 1200)
                ))
            }
        }
        if !whole.starts_with(&sink.data) {
            return cx.fail("what was written before an extension failed is no prefix of the document");
        }
        let again = write_on(cx, p, t, Out::Compact)?;
        if again != whole {
            return cx.fail(format!("after an extension that {does:?}, writing gives {}", clip(&String::from_utf8_lossy(&again), 800)));
        }
        if write_on(cx, p, t, Out::Value)? != value {
            return cx.fail(format!("after an extension that {does:?}, the value is another one"));
        }
        expect_all(cx, &before, &t.observe(), &|| "after an extension failed".into())?;
    }
    // While it is read.
    let Ok(doc) = j::parse(b) else { return Ok(()) };
    let calls = match p.call(|| with_ext(HookAt::De, Does::Nothing, || parse_plain(set, b, In::Slice).is_ok())) {
        Ok((true, n, _)) => n,
        x => return cx.fail(format!("reading with idle extensions: {x:?}")),
    };
    cx.add("extension calls while reading", calls);
    for _ in 0..if calls > 0 { rounds } else { 0 } {
        let n = cx.t.draw(calls);
        let panics = cx.t.chance(1, 3);
        let does = if panics { Does::Panics(n) } else { Does::Fails(n) };
        let how = match pick_in(cx) {
            // Its members come in another order, and calls with them.
            In::Value => In::Slice,
            x => x,
        };
        let r = p.call(|| {
            with_ext(HookAt::De, does, || match how {
                In::Reader(c) => any::parse(
                    set,
                    Src::Reader(&mut Source::new(b, cut_of(c), End::Whole)),
                ),
                _ => any::parse(set, Src::Slice(b)),
            }
            .map(|t| t.observe())
            .map_err(|e| e.to_string()))
        });
        cx.step(n, "extension fails while it is read");
        cx.fault(if panics { "extension panics while it is read" } else { "extension fails while it is read" });
        match r {
            Err(e) if panics && e.contains(PANIC) => {}
            Err(e) => return cx.fail(format!("panic while reading with an extension that {does:?}: {e}")),
            Ok((Err(e), _, _)) if !panics && e.contains(HOOK_MSG) => {}
            // An error all the same; that of the finding may take over.
            Ok((Err(_), _, _)) if !panics => {}
            Ok((_, _, Some(v))) if drops(&doc, &v) => cx.count("dropped with its data schema (recorded finding)"),
            Ok((Ok(x), _, v)) => {
                return cx.fail(format!(
                    "reading with {set:?} and an extension that {does:?} of {calls} (at {v:?}) gave a Thing: {}; document: {}",
                    clip(&x.text(), 600),
                    clip(&doc.text(), 1200)
                ))
            }
            Ok((Err(e), _, _)) => return cx.fail(format!("reading with an extension that panics gave the error {e}")),
        }
        let t2 = must_parse(cx, p, set, b, how, "a node whose extension failed before")?;
        expect_all(cx, &before, &t2.observe(), &|| "read again after an extension failed".into())?;
    }
    Ok(())
}
