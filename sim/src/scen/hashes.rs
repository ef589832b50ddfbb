//! The same work on nodes with other hash seeds, and after restarts.

use simcore::{
    cx::{Cx, Run},
    gen::G,
    gram::{self, Meaning, Set, READERS},
    j::{self, s, J},
    rules,
    tape::Rng,
};

use super::*;
use crate::any::BUILDERS;

pub fn run(cx: &mut Cx) -> Run {
    let k = 2 + cx.t.draw(2) as usize;
    let base = cx.t.subseed();
    let procs: Vec<Proc> = (0..k).map(|i| Proc::spawn(base.wrapping_mul(7919) + i as u64)).collect();
    cx.nontrivial = true;
    cx.mark(base);
    if cx.t.chance(1, 2) {
        built(cx, &procs)
    } else {
        read(cx, &procs)
    }
}

/// What the Things of different processes say has to be one thing.
fn agree(cx: &mut Cx, things: &[Th], what: &str) -> Run {
    let first = things[0].observe();
    for (i, t) in things.iter().enumerate() {
        for (l, u) in things.iter().enumerate() {
            if !t.same(&**u) {
                return cx.fail(format!(
                    "{what}: the Things of processes {i} and {l} do not compare equal: {:?}",
                    j::diff(&t.observe(), &u.observe())
                ));
            }
        }
        if let Some(d) = j::diff(&first, &t.observe()) {
            return cx.fail(format!("{what}: the Things of processes 0 and {i} differ: {d:?}"));
        }
    }
    Ok(())
}

fn texts(cx: &mut Cx, procs: &[Proc], things: &[Th], what: &str) -> Res<Vec<Vec<u8>>> {
    let mut out = Vec::new();
    let mut docs: Vec<J> = Vec::new();
    for (p, t) in procs.iter().zip(things) {
        let o = pick_out(cx);
        let b = write_on(cx, p, t, o)?;
        match j::parse(&b) {
            Ok(d) => docs.push(d),
            // Another property's question.
            Err(_) => cx.count("improper text"),
        }
        out.push(b);
    }
    for (i, d) in docs.iter().enumerate() {
        if let Some(d) = j::diff(&docs[0], d) {
            return cx.fail(format!("{what}: the documents of processes 0 and {i} differ: {d:?}"));
        }
    }
    Ok(out)
}

fn built(cx: &mut Cx, procs: &[Proc]) -> Run {
    let set = *cx.t.pick(BUILDERS);
    let (title, ext, calls) = {
        let mut g = G::new(&mut cx.t, set, true);
        let (t, e, mut calls) = g.calls();
        if g.t.chance(1, 4) {
            rules::break_one(&mut g, &mut calls);
        }
        (t, e, calls)
    };
    let m = Made {
        set,
        title,
        ext,
        calls,
        style: cx.t.subseed(),
    };
    let mut things: Vec<Th> = Vec::new();
    let mut refused = 0;
    for p in procs {
        match build_on(cx, p, &m)? {
            Ok(t) => things.push(t),
            Err(e) => {
                refused += 1;
                cx.say(|| format!("refused: {e}"));
            }
        }
    }
    cx.count("builds on several processes");
    if refused > 0 && !things.is_empty() {
        return cx.fail(format!(
            "{refused} of {} processes refuse the same contributions",
            procs.len()
        ));
    }
    if things.is_empty() {
        return Ok(());
    }
    if let Ok(w) = gram::canon(&simcore::gen::fold(&m.title, &m.ext, &m.calls), set) {
        note(cx, &w);
    }
    agree(cx, &things, "same contributions")?;
    let b = texts(cx, procs, &things, "same contributions")?;
    // Each process reads what another one wrote.
    let mut back = Vec::new();
    for (i, p) in procs.iter().enumerate() {
        let how = pick_in(cx);
        let x = &b[(i + 1) % b.len()];
        back.push(must_parse(cx, p, set, x, how, "a process")?);
    }
    agree(cx, &back, "documents written from the same contributions")?;
    // A restarted process has the Thing it had.
    let restarted = Proc::spawn(cx.t.subseed() + 17);
    cx.fault("restart");
    let t = must_parse(cx, &restarted, set, &b[0], In::Slice, "the restarted process")?;
    back.push(t);
    agree(cx, &back, "after a restart")?;
    let custom = m.calls.iter().any(|c| {
        c.k == "security"
            && c.v
                .get("def")
                .and_then(|d| d.get("scheme"))
                .and_then(|x| x.str())
                .is_some_and(|x| gram::scheme_fields(x).is_none())
    });
    if !custom {
        // The Thing a process reads back is the one it built.
        back.push(things[0].clone());
        agree(cx, &back, "built, published and read back")?;
    }
    differ(cx, procs, set, &b[0])
}

fn read(cx: &mut Cx, procs: &[Proc]) -> Run {
    let set = *cx.t.pick(READERS);
    let doc = G::new(&mut cx.t, set, false).doc();
    note(cx, &doc);
    let style = cx.t.subseed();
    let b = foreign_text(&doc, style);
    cx.say(|| format!("document for {set:?}: {}", clip(&String::from_utf8_lossy(&b), 4000)));
    let mut things = Vec::new();
    for p in procs {
        let how = pick_in(cx);
        things.push(must_parse(cx, p, set, &b, how, "a process")?);
    }
    cx.count("documents read on several processes");
    agree(cx, &things, "same document")?;
    let t = texts(cx, procs, &things, "same document")?;
    let restarted = Proc::spawn(cx.t.subseed() + 17);
    cx.fault("restart");
    for x in &t {
        let how = pick_in(cx);
        things.push(must_parse(cx, &restarted, set, x, how, "the restarted process")?);
    }
    agree(cx, &things, "relayed by each process and read after a restart")?;
    differ(cx, procs, set, &b)
}

/// A description that differs in one place is not equal to the first.
fn differ(cx: &mut Cx, procs: &[Proc], set: Set, b: &[u8]) -> Run {
    let Ok(doc) = j::parse(b) else { return Ok(()) };
    let Meaning::Is(says) = gram::read(&doc, set) else {
        return Ok(());
    };
    let a = must_parse(cx, &procs[0], set, b, In::Slice, "a process")?;
    for _ in 0..if cx.thorough { 12 } else { 5 } {
        let mut d = doc.clone();
        let seed = cx.t.subseed();
        let mut r = Rng::new(seed);
        mutate(&mut d, &mut r);
        let Meaning::Is(other) = gram::read(&d, set) else {
            continue;
        };
        let diff = j::diff(&says, &other);
        let text = foreign_text(&d, 0);
        let u = must_parse(cx, &procs[1], set, &text, In::Slice, "a process")?;
        let equal = diff.is_none();
        if equal {
            cx.count("variants that say the same");
        } else {
            cx.count("variants that differ");
        }
        for (x, y) in [(&a, &u), (&u, &a)] {
            if x.same(&**y) != equal {
                return cx.fail(match &diff {
                    None => format!(
                        "two descriptions that say the same do not compare equal with {set:?}: {} / {}",
                        clip(&doc.text(), 1500),
                        clip(&d.text(), 1500)
                    ),
                    Some(diff) => format!("Things that differ compare equal with {set:?}: {diff:?}"),
                });
            }
        }
    }
    Ok(())
}

/// Changes one value somewhere.
pub fn mutate(d: &mut J, r: &mut Rng) {
    fn count(v: &J) -> u64 {
        1 + match v {
            J::Arr(a) => a.iter().map(count).sum(),
            J::Obj(m) => m.iter().map(|(_, x)| count(x)).sum(),
            _ => 0,
        }
    }
    fn go(v: &mut J, n: &mut i64, r: &mut Rng) {
        if *n < 0 {
            return;
        }
        if *n == 0 {
            *n = -1;
            change(v, r);
            return;
        }
        *n -= 1;
        match v {
            J::Arr(a) => a.iter_mut().for_each(|x| go(x, n, r)),
            J::Obj(m) => m.iter_mut().for_each(|(_, x)| go(x, n, r)),
            _ => {}
        }
    }
    fn change(v: &mut J, r: &mut Rng) {
        match v {
            J::Null => *v = J::Bool(false),
            J::Bool(b) => *b = !*b,
            J::Int(i) => *i = if *i > 0 && r.chance(1, 2) { *i - 1 } else { *i + 1 },
            J::Flt(f) => *f = if *f == 0.0 { 1.5 } else { *f * 2.0 },
            // Another time; another offset alone would be the same instant.
            J::Str(t) if is_time(t) && r.chance(3, 4) => {
                let fraction = t[19..].bytes().skip(1).take_while(|c| c.is_ascii_digit()).count();
                let i = match &t[19..20] {
                    "." if fraction > 0 && r.chance(1, 2) => 19 + fraction,
                    _ => 3 + 3 * r.below(6) as usize,
                };
                let d = (t.as_bytes()[i] - b'0' + 1) % 10;
                t.replace_range(i..=i, &d.to_string());
            }
            J::Str(t) => match r.below(4) {
                0 => t.push('x'),
                1 => t.insert(0, ' '),
                2 => *t = t.to_uppercase(),
                _ => {
                    t.pop();
                }
            },
            J::Arr(a) => match r.below(3) {
                0 if a.len() > 1 => a.swap(0, 1),
                1 if !a.is_empty() => {
                    let x = a[0].clone();
                    a.push(x);
                }
                _ => {
                    let n = a.len();
                    if n > 0 {
                        a.remove(r.below(n as u64) as usize);
                    } else {
                        a.push(s("x"));
                    }
                }
            },
            J::Obj(m) => {
                let n = m.len();
                if n == 0 {
                    m.push(("added".into(), s("x")));
                    return;
                }
                let i = r.below(n as u64) as usize;
                match r.below(3) {
                    0 => {
                        m.remove(i);
                    }
                    1 => m[i].0.push('x'),
                    _ => {
                        let l = r.below(n as u64) as usize;
                        let (a, b) = (m[i].1.clone(), m[l].1.clone());
                        m[i].1 = b;
                        m[l].1 = a;
                    }
                }
            }
        }
    }
    // Any place alike, or mostly one near the top.
    if r.chance(1, 2) {
        let mut n = r.below(count(d)) as i64;
        return go(d, &mut n, r);
    }
    let mut at = d;
    loop {
        let n = match &*at {
            J::Arr(a) => a.len(),
            J::Obj(m) => m.len(),
            _ => 0,
        };
        if n == 0 || r.chance(1, 5) {
            return change(at, r);
        }
        let i = r.below(n as u64) as usize;
        at = match at {
            J::Arr(a) => &mut a[i],
            J::Obj(m) => &mut m[i].1,
            _ => unreachable!(),
        };
    }
}

fn is_time(t: &str) -> bool {
    t.len() >= 20
        && t.is_ascii()
        && t.bytes().zip("dddd-dd-ddTdd:dd:dd".bytes()).all(|(c, p)| match p {
            b'd' => c.is_ascii_digit(),
            p => c.to_ascii_uppercase() == p,
        })
}
