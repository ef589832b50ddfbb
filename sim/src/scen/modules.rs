//! Modules that contribute to one Thing at the same time.

use std::sync::Mutex;

use simcore::{
    cx::{Cx, Run},
    gen::{fold, G},
    gram, rules, sched,
    Call,
};

use super::*;
use crate::any::BUILDERS;

pub fn run(cx: &mut Cx) -> Run {
    let set = *cx.t.pick(BUILDERS);
    let (title, ext, mut calls, ways) = {
        let mut g = G::new(&mut cx.t, set, true);
        let (title, ext, mut calls) = g.calls();
        if g.t.chance(1, 3) {
            // Others set the same members.
            let (_, _, more) = g.calls();
            calls.extend(more);
        }
        let mut ways = Vec::new();
        if cx.prop == "C07" {
            let n = *g.t.pick(&[0u64, 1, 1, 2, 3]);
            for _ in 0..n {
                ways.push(rules::break_one(&mut g, &mut calls));
            }
        }
        (title, ext, calls, ways)
    };
    for w in ways {
        cx.count(&format!("broken rule: {w}"));
    }
    // Who contributes what.
    let modules = 1 + cx.t.draw(4) as usize;
    let mut parts: Vec<Vec<Call>> = vec![Vec::new(); modules];
    let deal = cx.t.subseed();
    let mut r = Rng::new(deal);
    let stick = r.below(4);
    let mut who = 0;
    for c in calls.drain(..) {
        if r.below(4) >= stick {
            who = r.below(modules as u64) as usize;
        }
        parts[who].push(c);
    }
    let faults = cx.t.chance(1, 3);
    let sizes: Vec<usize> = parts.iter().map(|p| p.len()).collect();
    let box_: Mutex<Vec<(usize, Call)>> = Mutex::new(Vec::new());
    let mut tasks: Vec<sched::Task> = Vec::new();
    for (id, part) in parts.into_iter().enumerate() {
        let box_ = &box_;
        tasks.push(Box::new(move || {
            for c in part {
                match sched::yield_at("contribute", 0) {
                    // The module dies before it makes its remaining contributions.
                    2 => return,
                    // The contribution is delivered twice.
                    1 => {
                        let mut b = box_.lock().expect("harness");
                        b.push((id, c.clone()));
                        b.push((id, c));
                    }
                    _ => box_.lock().expect("harness").push((id, c)),
                }
            }
        }));
    }
    let order = std::cell::RefCell::new(Vec::new());
    {
        let cxr = std::cell::RefCell::new(&mut *cx);
        sched::run(
            tasks,
            &|id| crate::seam::set_hash_seed(id as u64),
            &mut |ready| {
                let i = cxr.borrow_mut().t.draw(ready.len() as u64) as usize;
                order.borrow_mut().push(ready[i]);
                i
            },
            &mut |_, kind, _| {
                let mut cx = cxr.borrow_mut();
                if kind != "contribute" || !faults {
                    return 0;
                }
                match cx.t.draw(24) {
                    22 => {
                        cx.fault("contribution delivered twice");
                        1
                    }
                    23 => {
                        cx.fault("module died");
                        2
                    }
                    _ => 0,
                }
            },
        );
    }
    for id in order.into_inner() {
        cx.step(id as u64, "contributes");
    }
    if modules > 1 && sizes.iter().filter(|n| **n > 0).count() > 1 {
        cx.nontrivial = true;
    }
    let got: Vec<(usize, Call)> = box_.into_inner().expect("harness");
    cx.add("contributions", got.len() as u64);
    let calls: Vec<Call> = got.into_iter().map(|(_, c)| c).collect();
    cx.say(|| format!("contributions to {title:?} with {set:?}:"));
    for c in &calls {
        cx.say(|| format!("  {} {} {}", c.k, c.name, clip(&c.v.text(), 2000)));
    }
    let broken = rules::broken(&calls);
    let m = Made {
        set,
        title,
        ext,
        calls,
        style: cx.t.subseed(),
    };
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    cx.mark(seed);
    let r = build_on(cx, &p, &m)?;
    match r {
        Err(e) => {
            cx.count("refused");
            if cx.prop == "C07" && !broken.contains(&e) {
                return cx.fail(format!(
                    "the build was refused with {e:?}; the rules that are broken: {broken:?}"
                ));
            }
            if cx.prop == "C07" {
                cx.nontrivial = true;
            }
            cx.mark(simcore::cx::hash_bytes(e.as_bytes()));
        }
        Ok(t) => {
            cx.count("accepted");
            if !broken.is_empty() {
                if cx.prop == "C07" {
                    return cx.fail(format!("the build was accepted although it breaks {broken:?}"));
                }
                return Ok(());
            }
            let want = gram::canon(&fold(&m.title, &m.ext, &m.calls), set)
                .unwrap_or_else(|e| panic!("harness: contributions without meaning: {e}"));
            note(cx, &want);
            cx.bytes(want.text().as_bytes());
            if cx.prop == "C08" {
                let got = t.observe();
                expect(cx, &want, &got, &|| "the Thing is not what was contributed".into())?;
            }
        }
    }
    Ok(())
}
