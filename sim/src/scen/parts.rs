//! Descriptions that travel in parts.

use simcore::{
    cx::{clip, Cx, Run},
    gen::G,
    gram::{Meaning, Set, READERS},
    io::{End, Source, IO_MSG, KINDS},
    j::{self, J},
    tape::Rng,
};

use super::*;
use crate::{
    any::Src,
    parts::{How, Keeper, Kind, Part, Place},
};

pub fn run(cx: &mut Cx) -> Run {
    if cx.t.chance(1, 3) {
        alone(cx)
    } else {
        apart(cx)
    }
}

fn show(p: &Place) -> String {
    format!("{:?} at /{}", p.0, p.1.join("/"))
}
fn clipped(b: &[u8]) -> String {
    clip(&String::from_utf8_lossy(b), 1500)
}

/// The part of a document that is in a place.
fn inside<'a>(doc: &'a J, path: &[String]) -> &'a J {
    path.iter().fold(doc, |x, k| match x {
        J::Arr(a) => &a[k.parse::<usize>().expect("harness: no index")],
        J::Obj(_) if x.get(k).is_some() => x.get(k).expect("harness"),
        // A list of one that is written as its only element.
        _ if k == "0" => x,
        _ => panic!("harness: nothing at {path:?}"),
    })
}

// ---------------------------------------------------------------- apart and together

/// A description under way.
struct Trip {
    set: Set,
    text: Vec<u8>,
    whole: Th,
    parts: Vec<Part>,
    keeper: Box<dyn Keeper>,
    /// What the gathering node wrote down: survives it.
    disk: Vec<(usize, Vec<u8>)>,
    got: Vec<bool>,
    joined: bool,
}

fn trip(cx: &mut Cx, p: &Proc) -> Res<Option<Trip>> {
    let Some((set, text)) = streams::some_doc(cx, p)? else {
        return Ok(None);
    };
    let whole = must_parse(cx, p, set, &text, In::Slice, "a node")?;
    let how = How {
        seed: cx.t.subseed(),
        density: *cx.t.pick(&[4u64, 1, 8, 12, 16]),
        max: *cx.t.pick(&[12usize, 4, 40, 150]),
        ill: *cx.t.pick(&[0u64, 1, 4]),
    };
    let r = p.call(|| any::parse(set, Src::Slice(&text)).expect("harness: read before").split(how));
    let parts = match r {
        Ok(Ok((x, broken))) => {
            if broken > 0 {
                cx.add("fault: sink breaks", broken);
                cx.nontrivial = true;
            }
            x
        }
        Ok(Err(e)) => return cx.fail(format!("{set:?}: {e}; document: {}", clipped(&text))),
        Err(e) => return cx.fail(format!("panic while taking a Thing apart: {e}; document: {}", clipped(&text))),
    };
    cx.add("parts written", parts.len() as u64);
    cx.say(|| format!("{set:?}: {} parts of {}", parts.len(), clip(&String::from_utf8_lossy(&text), 4000)));
    for x in &parts {
        cx.bytes(&x.text);
        cx.say(|| format!("  {}: {}", show(&x.place), clip(&String::from_utf8_lossy(&x.text), 1000)));
        if let Err(e) = j::parse(&x.text) {
            return cx.fail(format!("{set:?}: {} is written as no JSON text: {e:?}: {}", show(&x.place), clipped(&x.text)));
        }
    }
    Ok(Some(Trip {
        set,
        text,
        whole,
        got: vec![false; parts.len()],
        parts,
        keeper: any::keeper(set),
        disk: Vec::new(),
        joined: false,
    }))
}

/// Hands a part to the gathering node.
fn hand(cx: &mut Cx, p: &Proc, t: &mut Trip, i: usize, b: &[u8], how: In) -> Run {
    let place = t.parts[i].place.clone();
    let k = &mut t.keeper;
    let r = p.call(|| {
        match how {
            In::Slice => k.take(&place, Src::Slice(b)),
            In::Value => serde_json::from_slice(b).and_then(|v| k.take(&place, Src::Value(v))),
            In::Reader(c) => k.take(&place, Src::Reader(&mut Source::new(b, cut_of(c), End::Whole))),
        }
        .map_err(|e| e.to_string())
    });
    match r {
        Ok(Ok(())) => {
            t.got[i] = true;
            cx.count("parts read");
            Ok(())
        }
        Ok(Err(e)) => cx.fail(format!(
            "{:?} ({how:?}): {} cannot be read on its own: {e}: {}; of the document: {}",
            t.set,
            show(&place),
            clipped(b),
            clipped(&t.text)
        )),
        Err(e) => cx.fail(format!("panic while reading {}: {e}: {}", show(&place), clipped(b))),
    }
}

/// A transfer that does not come to its end has to be refused as such.
fn broken(cx: &mut Cx, p: &Proc, t: &mut Trip, i: usize, r: &mut Rng) -> Run {
    let Part { place, text } = t.parts[i].clone();
    let pos = r.below(text.len() as u64) as usize;
    let kind = KINDS[r.below(KINDS.len() as u64) as usize];
    let end = match r.below(5) {
        0 => End::Once(pos, kind),
        1 => End::Fail(pos, kind),
        _ => End::Eof(pos),
    };
    let fails = !matches!(end, End::Eof(_));
    cx.fault(if fails { "transfer fails" } else { "transfer ends early" });
    let cut = Cut {
        max: [0, 1, 3, 50][r.below(4) as usize],
        interrupts: [0, 0, 3][r.below(3) as usize],
        seed: r.next(),
    };
    let had = t.keeper.has(&place);
    let k = &mut t.keeper;
    let res = p.call(|| {
        if fails || cut.max > 0 {
            k.take(&place, Src::Reader(&mut Source::new(&text, cut, end)))
        } else {
            k.take(&place, Src::Slice(&text[..pos]))
        }
    });
    let what = || format!("{:?}: {} cut short ({end:?} of {})", t.set, show(&place), text.len());
    match res {
        Err(e) => cx.fail(format!("{}: panic: {e}: {}", what(), clipped(&text))),
        Ok(Ok(())) => cx.fail(format!("{} was taken for a whole one: {}", what(), clipped(&text[..pos]))),
        Ok(Err(e)) => {
            let want = if fails { format!("io {:?}", Some(kind)) } else { "eof".to_string() };
            let got = streams::kind_of(&e);
            if got != want || (fails && !e.to_string().contains(IO_MSG)) {
                return cx.fail(format!("{} was reported as {got} ({e}), not {want}: {}", what(), clipped(&text[..pos])));
            }
            if t.keeper.has(&place) != had {
                panic!("harness: a refused part was kept");
            }
            Ok(())
        }
    }
}

fn apart(cx: &mut Cx) -> Run {
    let base = cx.t.subseed();
    let taker = Proc::spawn(base);
    let relay = Proc::spawn(base ^ 0x55);
    let mut lives = 1;
    let mut keeper = Proc::spawn(base.wrapping_mul(7) + lives);
    cx.mark(base);
    let mut trips = Vec::new();
    for _ in 0..1 + cx.t.draw(2) {
        match trip(cx, &taker)? {
            Some(t) => trips.push(t),
            None => return Ok(()),
        }
    }
    // What is under way: a part of a trip, and its bytes.
    let mut net: Vec<(usize, usize, Vec<u8>)> = Vec::new();
    for (n, t) in trips.iter().enumerate() {
        net.extend(t.parts.iter().enumerate().map(|(i, x)| (n, i, x.text.clone())));
    }
    let seed = cx.t.subseed();
    let mut r = Rng::new(seed);
    let bad = *cx.t.pick(&[4u64, 0, 1, 8]);
    let mut faults = 6 + net.len() / 2;
    let mut steps = 0;
    let bound = 40 + 6 * net.len();
    loop {
        steps += 1;
        cx.now += 1_000_000;
        if steps > bound {
            return cx.fail(format!("the parts are not together after {bound} steps"));
        }
        if net.is_empty() {
            // What did not arrive is asked for again.
            for (n, t) in trips.iter().enumerate() {
                for (i, _) in t.got.iter().enumerate().filter(|x| !*x.1) {
                    net.push((n, i, t.parts[i].text.clone()));
                    cx.count("parts asked for again");
                }
            }
            if net.is_empty() {
                break;
            }
        }
        let k = r.below(net.len() as u64) as usize;
        let (n, i, b) = net.swap_remove(k);
        let ill = faults > 0 && r.chance(bad, 16);
        cx.step((n * 1000 + i) as u64, "part");
        if ill {
            faults -= 1;
            match r.below(8) {
                0 => cx.fault("part lost"),
                1 => {
                    cx.fault("part duplicated");
                    net.push((n, i, b.clone()));
                    net.push((n, i, b));
                }
                2 | 3 => {
                    let t = &mut trips[n];
                    // Sometimes a peer that never gets it through.
                    let times = if b.len() < 4000 && r.chance(1, 10) {
                        cx.count("peers that never get it through");
                        20 + r.below(280)
                    } else {
                        1
                    };
                    for _ in 0..times {
                        broken(cx, &keeper, t, i, &mut r)?;
                    }
                }
                4 | 5 => {
                    // Relayed by a node that reads it and writes it again.
                    cx.fault("part relayed");
                    let t = &trips[n];
                    let place = &t.parts[i].place;
                    let style = r.below(3);
                    let set = t.set;
                    let res = relay.call(|| {
                        let mut k = any::keeper(set);
                        k.take(place, Src::Slice(&b)).map_err(|e| e.to_string())?;
                        k.give(place, style)
                    });
                    match res {
                        Ok(Ok(b2)) => {
                            if let Err(e) = j::parse(&b2) {
                                return cx.fail(format!(
                                    "{set:?}: {} is relayed as no JSON text: {e:?}: {}",
                                    show(place),
                                    clipped(&b2)
                                ));
                            }
                            net.push((n, i, b2));
                        }
                        Ok(Err(e)) => {
                            return cx.fail(format!("{set:?}: {} cannot be relayed: {e}: {}", show(place), clipped(&b)))
                        }
                        Err(e) => return cx.fail(format!("panic while relaying {}: {e}: {}", show(place), clipped(&b))),
                    }
                }
                6 => {
                    // The gathering node dies; what it wrote down it reads again.
                    cx.fault("process killed");
                    lives += 1;
                    keeper = Proc::spawn(base.wrapping_mul(7) + lives);
                    net.push((n, i, b));
                    for t in &mut trips {
                        t.keeper = any::keeper(t.set);
                        t.got.iter_mut().for_each(|x| *x = false);
                        let disk = std::mem::take(&mut t.disk);
                        let last = disk.len();
                        for (at, (i, b)) in disk.into_iter().enumerate() {
                            if at + 1 == last && r.chance(1, 2) && b.len() > 1 {
                                cx.fault("torn write");
                                let pos = r.below(b.len() as u64) as usize;
                                let place = t.parts[i].place.clone();
                                let k = &mut t.keeper;
                                match keeper.call(|| k.take(&place, Src::Slice(&b[..pos])).map_err(|e| e.to_string())) {
                                    Ok(Err(_)) => {}
                                    Ok(Ok(())) => {
                                        return cx.fail(format!(
                                            "{:?}: the first {pos} of {} bytes of {} were taken for a whole one: {}",
                                            t.set,
                                            b.len(),
                                            show(&place),
                                            clipped(&b[..pos])
                                        ))
                                    }
                                    Err(e) => return cx.fail(format!("panic while reading {}: {e}", show(&place))),
                                }
                                continue;
                            }
                            hand(cx, &keeper, t, i, &b, In::Slice)?;
                            t.disk.push((i, b));
                        }
                    }
                }
                _ => {
                    cx.fault("part delayed");
                    net.push((n, i, b));
                }
            }
            continue;
        }
        let how = match r.below(4) {
            0 => In::Value,
            1 => In::Reader(([1, 2, 7, 64, 4096][r.below(5) as usize], [0, 2, 6][r.below(3) as usize], r.next())),
            _ => In::Slice,
        };
        let t = &mut trips[n];
        hand(cx, &keeper, t, i, &b, how)?;
        t.disk.retain(|x| x.0 != i);
        t.disk.push((i, b));
    }
    for t in &mut trips {
        let k = &mut t.keeper;
        let joined = match keeper.call(|| k.join()) {
            Ok(Ok((x, n))) if n == t.parts.len() => Th::from(x),
            Ok(Ok((_, n))) => panic!("harness: {n} of {} parts were put together", t.parts.len()),
            Ok(Err(e)) => return cx.fail(format!("{:?}: {e}; document: {}", t.set, clipped(&t.text))),
            Err(e) => return cx.fail(format!("panic while putting a Thing together: {e}; document: {}", clipped(&t.text))),
        };
        t.joined = true;
        cx.count("Things put together");
        cx.nontrivial |= t.parts.len() > 1;
        let set = t.set;
        let names = || {
            let l: Vec<String> = t.parts.iter().map(|x| format!("{}: {}", show(&x.place), clipped(&x.text))).collect();
            clip(&l.join("; "), 1500)
        };
        if let Some((path, d)) = j::diff(&t.whole.observe(), &joined.observe()) {
            return cx.fail(format!(
                "{set:?}: put together from its parts it says something else: at /{}: {d}; parts: {}",
                path.join("/"),
                names()
            ));
        }
        if !joined.same(&*t.whole) || !t.whole.same(&*joined) {
            return cx.fail(format!("{set:?}: put together from its parts it is not equal to the whole; parts: {}", names()));
        }
        let out = pick_out(cx);
        let b = write_on(cx, &keeper, &joined, out)?;
        let again = must_parse(cx, &keeper, set, &b, In::Slice, "the node that put the parts together")?;
        if !again.same(&*t.whole) {
            return cx.fail(format!("{set:?}: written and read again it is not equal to the whole; parts: {}", names()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- read alone

/// Parts that another implementation cuts out of a description.
fn alone(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    cx.mark(seed);
    let set = *cx.t.pick(READERS);
    let doc = G::new(&mut cx.t, set, false).doc();
    let other = G::new(&mut cx.t, set, false).doc();
    note(cx, &doc);
    let text = foreign_text(&doc, 0);
    cx.bytes(&text);
    let mut whole = match p.call(|| any::parse(set, Src::Slice(&text)).map_err(|e| e.to_string())) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return cx.fail(format!("{set:?} cannot read an intact document: {e}; document: {}", clipped(&text))),
        Err(e) => return cx.fail(format!("panic while reading: {e}; document: {}", clipped(&text))),
    };
    cx.say(|| format!("document for {set:?}: {}", clip(&String::from_utf8_lossy(&text), 6000)));
    let places = whole.places();
    cx.add("places of parts", places.len() as u64);
    let rounds = if cx.thorough { 40 } else { 16 };
    let mut r = Rng::new(seed ^ 0x77);
    for _ in 0..rounds {
        let place = &places[r.below(places.len() as u64) as usize];
        let part = inside(&doc, &place.1);
        let style = r.next();
        let b = foreign_text(part, style);
        let how = pick_in(cx);
        cx.bytes(&b);
        cx.step(place.0 as u64, "alone");
        cx.say(|| format!("{} ({how:?}): {}", show(place), clip(&String::from_utf8_lossy(&b), 2000)));
        let res = p.call(|| {
            match how {
                In::Slice => whole.agrees(place, Src::Slice(&b)),
                In::Value => serde_json::from_slice(&b).and_then(|v| whole.agrees(place, Src::Value(v))),
                In::Reader(c) => whole.agrees(place, Src::Reader(&mut Source::new(&b, cut_of(c), End::Whole))),
            }
            .map_err(|e| e.to_string())
        });
        match res {
            Ok(Ok(true)) => cx.count("parts read alone"),
            Ok(Ok(false)) => {
                return cx.fail(format!(
                    "{set:?} ({how:?}): {} read alone is not equal to what it is in the whole: {}",
                    show(place),
                    clipped(&b)
                ))
            }
            Ok(Err(e)) => {
                return cx.fail(format!(
                    "{set:?} ({how:?}): {} is read in the whole but not alone: {e}: {}",
                    show(place),
                    clipped(&b)
                ))
            }
            Err(e) => return cx.fail(format!("panic while reading {}: {e}: {}", show(place), clipped(&b))),
        }
        // The same part, damaged on its way.
        let Some(node) = place.0.node() else { continue };
        if place.0 == Kind::Thing {
            continue;
        }
        let mut d = part.clone();
        let b = if r.chance(2, 3) {
            for _ in 0..1 + r.below(2) {
                let k = corrupt::tamper(&mut d, &other, &mut r);
                cx.fault(k);
            }
            foreign_text(&d, style)
        } else {
            let mut b = b;
            let o = foreign_text(&other, style);
            let k = corrupt::damage(&mut b, &o, &mut r);
            cx.fault(k);
            b
        };
        cx.bytes(&b);
        let res = p.call(|| {
            let mut k = any::keeper(set);
            match k.take(place, Src::Slice(&b)) {
                Err(_) => Ok(None),
                Ok(()) => {
                    let says = k.says(place).expect("harness: a part without a word");
                    let b2 = k.give(place, 2)?;
                    let mut k2 = any::keeper(set);
                    k2.take(place, Src::Slice(&b2)).map_err(|e| format!("{e}, written as {}", clipped(&b2)))?;
                    Ok(Some((says, k2.says(place).expect("harness: a part without a word"))))
                }
            }
        });
        let what = || format!("{set:?}: {} damaged: {}", show(place), clipped(&b));
        let got = match res {
            Err(e) => return cx.fail(format!("panic: {e}; {}", what())),
            Ok(Err::<_, String>(e)) => return cx.fail(format!("a part that was read cannot be relayed: {e}; {}", what())),
            Ok(Ok(x)) => x,
        };
        cx.count(if got.is_some() { "damaged parts read" } else { "damaged parts refused" });
        let means = corrupt::meaning(&b, node, set);
        let Some((says, relayed)) = got else {
            if let Meaning::Is(_) = means {
                cx.count("damaged parts refused though they have a meaning");
            }
            continue;
        };
        match &means {
            Meaning::Bad(e) => {
                return cx.fail(format!("a part was made of what is wrong ({e}): {}; {}", clip(&says.text(), 500), what()))
            }
            Meaning::Is(w) | Meaning::ErrOr(w) => {
                cx.count("damaged parts with a meaning");
                if let Some((path, d)) = j::diff(w, &says) {
                    return cx.fail(format!("the part is not what the text says: at /{}: {d}; {}", path.join("/"), what()));
                }
                if let Some((path, d)) = j::diff(&says, &relayed) {
                    return cx.fail(format!("a part that was read changes when relayed: at /{}: {d}; {}", path.join("/"), what()));
                }
            }
            Meaning::Unsure => cx.count("damaged parts of unsure meaning"),
        }
    }
    Ok(())
}
