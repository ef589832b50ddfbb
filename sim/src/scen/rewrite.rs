//! Documents that intermediaries rewrite into equivalent ones.

use simcore::{
    cx::{clip, Cx, Run},
    gen::{Respell, G},
    gram::{self, Set, N, READERS},
    j,
    tape::Rng,
};

use super::*;
use crate::any::BUILDERS;

pub fn run(cx: &mut Cx) -> Run {
    let base = cx.t.subseed();
    let n = 2 + cx.t.draw(2) as usize;
    let nodes: Vec<(Proc, Set)> = (0..n)
        .map(|i| (Proc::spawn(base.wrapping_mul(31) + i as u64), *cx.t.pick(READERS)))
        .collect();
    cx.mark(base);
    // Where the description comes from.
    let set = *cx.t.pick(READERS);
    let mut doc = if BUILDERS.contains(&set) && cx.t.chance(1, 3) {
        let m = Made::new(cx, set);
        let Ok(t) = build_on(cx, &nodes[0].0, &m)? else {
            return Ok(());
        };
        let out = pick_out(cx);
        let b = write_on(cx, &nodes[0].0, &t, out)?;
        match j::parse(&b) {
            Ok(d) => d,
            Err(_) => {
                // Another property's question.
                cx.count("improper text");
                return Ok(());
            }
        }
    } else {
        G::new(&mut cx.t, set, false).doc()
    };
    note(cx, &doc);
    let first = foreign_text(&doc, 0);
    cx.bytes(&first);
    cx.say(|| format!("original: {}", clip(&String::from_utf8_lossy(&first), 6000)));
    let mut whole: Vec<Th> = Vec::new();
    for (p, set) in &nodes {
        whole.push(must_parse(cx, p, *set, &first, In::Slice, "a node")?);
    }
    let says: Vec<J> = whole.iter().map(|t| t.observe()).collect();
    let hops = 1 + cx.t.draw(4);
    // The member a node does not know does not come back from it.
    let mut all_known = true;
    for hop in 0..hops {
        let seed = cx.t.subseed();
        let mut r = Rng::new(seed);
        let before = doc.clone();
        let done = {
            let mut w = Respell::new(&mut r, Set::All);
            doc = w.node(N::Thing, &doc);
            w.done
        };
        for (k, n) in ["defaults written or left out", "list of one as a value", "unknown member added", "date respelled"]
            .iter()
            .zip(done)
        {
            if n > 0 {
                cx.add(&format!("fault: {k}"), n);
                cx.nontrivial = true;
            }
        }
        let style = cx.t.subseed();
        let b = foreign_text(&doc, style);
        cx.count("fault: text rewritten");
        cx.bytes(&b);
        cx.step(seed, "rewritten");
        cx.say(|| format!("hop {hop}: {}", clip(&String::from_utf8_lossy(&b), 6000)));
        for i in 0..n {
            let how = pick_in(cx);
            let (p, set) = &nodes[i];
            let t = match parse_on(cx, p, *set, &b, how)? {
                Ok(t) => t,
                Err(e) => {
                    return cx.fail(format!(
                        "{set:?} ({how:?}) reads the original but not what it was rewritten to at hop {hop}: {e}; \
                         rewritten: {}; before: {}",
                        clip(&String::from_utf8_lossy(&b), 1500),
                        clip(&before.text(), 1500)
                    ))
                }
            };
            cx.count("rewritten documents read");
            if !all_known {
                // Compare with what this node made of the text last relayed.
                let w = canon_or_skip(&doc, *set);
                if let Some(w) = w {
                    expect(cx, &w, &t.observe(), &|| {
                        format!("{set:?} ({how:?}) after a relay at hop {hop}: rewritten: {}",
                            clip(&String::from_utf8_lossy(&b), 1500))
                    })?;
                }
                continue;
            }
            if let Some((path, d)) = j::diff(&says[i], &t.observe()) {
                return cx.fail(format!(
                    "{set:?} ({how:?}) reads something else from the text rewritten at hop {hop}: at /{}: {d}; \
                     rewritten: {}; before: {}",
                    path.join("/"),
                    clip(&String::from_utf8_lossy(&b), 1500),
                    clip(&before.text(), 1500)
                ));
            }
            if !t.same(&*whole[i]) || !whole[i].same(&*t) {
                return cx.fail(format!(
                    "{set:?} ({how:?}): the Thing read from the text rewritten at hop {hop} does not equal the first; \
                     rewritten: {}; before: {}",
                    clip(&String::from_utf8_lossy(&b), 1500),
                    clip(&before.text(), 1500)
                ));
            }
        }
        // Sometimes the intermediary is a gateway with the library.
        if cx.t.chance(1, 4) {
            let i = cx.t.draw(n as u64) as usize;
            let (p, set) = &nodes[i];
            let t = must_parse(cx, p, *set, &b, In::Slice, "a gateway")?;
            let out = pick_out(cx);
            let b = write_on(cx, p, &t, out)?;
            match j::parse(&b) {
                Ok(d) => doc = d,
                Err(_) => {
                    cx.count("improper text");
                    return Ok(());
                }
            }
            cx.count("relays in between");
            all_known = false;
        }
    }
    Ok(())
}

fn canon_or_skip(doc: &J, set: Set) -> Option<J> {
    gram::canon(doc, set).ok()
}
