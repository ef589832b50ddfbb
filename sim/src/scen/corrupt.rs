//! Documents that were damaged or tampered with on their way.

use simcore::{
    cx::{clip, Cx, Run},
    gen::G,
    gram::{self, Meaning, N, OPS, READERS, SCHEMES, TYPES},
    j::{self, s, Bad, J},
    tape::Rng,
};

use super::*;

pub fn run(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    cx.mark(seed);
    let set = *cx.t.pick(READERS);
    let doc = G::new(&mut cx.t, set, false).doc();
    let other = G::new(&mut cx.t, set, false).doc();
    note(cx, &doc);
    let rounds = if cx.thorough { 40 } else { 14 };
    let mut refused = None;
    for _ in 0..rounds {
        let style = cx.t.subseed();
        let dmg = cx.t.subseed();
        let mut r = Rng::new(dmg);
        let b = if cx.t.chance(2, 3) {
            let mut d = doc.clone();
            let n = 1 + cx.t.draw(3);
            for _ in 0..n {
                let k = tamper(&mut d, &other, &mut r);
                cx.fault(k);
            }
            foreign_text(&d, style)
        } else {
            let mut b = foreign_text(&doc, style);
            let o = foreign_text(&other, style);
            let n = 1 + cx.t.draw(2);
            for _ in 0..n {
                let k = damage(&mut b, &o, &mut r);
                cx.fault(k);
            }
            b
        };
        let how = pick_in(cx);
        if !judge(cx, &p, set, &b, how)? {
            refused = Some(b);
        }
    }
    // Somebody sends the same broken document again and again.
    if let Some(b) = refused.filter(|b| b.len() < 6000) {
        if cx.t.chance(1, 20) {
            cx.count("floods of one broken document");
            for _ in 0..300 {
                if let Ok(t) = parse_on(cx, &p, set, &b, In::Slice)? {
                    return cx.fail(format!(
                        "a document that was refused is read when it comes again: {}; document: {}",
                        clip(&t.observe().text(), 300),
                        clip(&String::from_utf8_lossy(&b), 1500)
                    ));
                }
            }
        }
    }
    // What the node was sent leaves nothing behind.
    let style = cx.t.subseed();
    let b = foreign_text(&doc, style);
    let t = must_parse(cx, &p, set, &b, In::Slice, "a node that was sent damaged documents")?;
    match gram::read(&doc, set) {
        Meaning::Is(w) => expect(cx, &w, &t.observe(), &|| "an intact document after damaged ones".into()),
        x => panic!("harness: generated document is {x:?}"),
    }
}

/// What a text has to be read as.
pub fn meaning(b: &[u8], n: N, set: gram::Set) -> Meaning {
    match j::parse_marked(b) {
        Err(Bad::Unsure(_)) => Meaning::Unsure,
        Err(e) => Meaning::Bad(format!("not one JSON text: {e:?}")),
        Ok((d, false)) => gram::read_node(n, &d, set),
        // The reader of serde_json skips what nobody asks for without a look at its characters.
        Ok((d, true)) => match gram::read_node(n, &d, set) {
            Meaning::Is(w) | Meaning::ErrOr(w) if !w.has_mark() => Meaning::ErrOr(w),
            Meaning::Unsure => Meaning::Unsure,
            Meaning::Bad(e) => Meaning::Bad(e),
            _ => Meaning::Bad("not one JSON text: not UTF-8".into()),
        },
    }
}

/// Judges how a text is read; false if it is refused.
fn judge(cx: &mut Cx, p: &Proc, set: gram::Set, b: &[u8], how: In) -> Res<bool> {
    cx.bytes(b);
    let text = || clip(&String::from_utf8_lossy(b), 2500);
    cx.say(|| format!("damaged document for {set:?} ({how:?}): {}", clip(&String::from_utf8_lossy(b), 6000)));
    let got = parse_on(cx, p, set, b, how)?;
    cx.count(if got.is_ok() { "damaged documents read" } else { "damaged documents refused" });
    cx.step(got.is_ok() as u64, "judged");
    let means = meaning(b, N::Thing, set);
    let t = match (&means, got) {
        (_, Err(_)) => return Ok(false),
        (Meaning::Bad(e), Ok(t)) => {
            return cx.fail(format!(
                "a Thing was made with {set:?} ({how:?}) of a document that is wrong ({e}): {}; document: {}",
                clip(&t.observe().text(), 500),
                text()
            ))
        }
        (_, Ok(t)) => t,
    };
    let says = t.observe();
    match &means {
        Meaning::Is(w) | Meaning::ErrOr(w) => {
            cx.count("damaged documents with a meaning");
            expect(cx, w, &says, &|| {
                format!("the Thing ({set:?}, {how:?}) is not what the text says; document: {}", text())
            })?;
        }
        _ => cx.count("damaged documents of unsure meaning"),
    }
    // Whatever was given out can be relayed.
    let b2 = match p.call(|| write_plain(&*t, Out::Compact)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return cx.fail(format!("a Thing that was read cannot be written: {e}; document: {}", text())),
        Err(e) => return cx.fail(format!("panic while writing a Thing that was read: {e}; document: {}", text())),
    };
    let t2 = match parse_on(cx, p, set, &b2, In::Slice)? {
        Ok(t) => t,
        Err(e) => {
            return cx.fail(format!(
                "a Thing that was read cannot be relayed: {e}; relayed: {}; document: {}",
                clip(&String::from_utf8_lossy(&b2), 1500),
                text()
            ))
        }
    };
    // Repeated members may still be resolved by the first relay, in one way or the other.
    let sure = !matches!(means, Meaning::Unsure);
    if let (true, Some((path, d))) = (sure, j::diff(&says, &t2.observe())) {
        return cx.fail(format!(
            "a Thing that was read changes when relayed: at /{}: {d}; document: {}",
            path.join("/"),
            text()
        ));
    }
    // A number of many digits may be off in its last ones after each read: that is serde_json's.
    if sure && says.short_floats() && !t.same(&*t2) {
        return cx.fail(format!("a Thing that was read does not equal what it is relayed as; document: {}", text()));
    }
    Ok(true)
}

// ---------------------------------------------------------------- tampering with the structure

fn count(v: &J) -> u64 {
    1 + match v {
        J::Arr(a) => a.iter().map(count).sum(),
        J::Obj(m) => m.iter().map(|(_, x)| count(x)).sum(),
        _ => 0,
    }
}
fn nth<'a>(v: &'a mut J, k: &mut u64) -> Option<&'a mut J> {
    if *k == 0 {
        return Some(v);
    }
    *k -= 1;
    match v {
        J::Arr(a) => {
            for x in a {
                let n = count(x);
                if *k < n {
                    return nth(x, k);
                }
                *k -= n;
            }
            None
        }
        J::Obj(m) => {
            for (_, x) in m {
                let n = count(x);
                if *k < n {
                    return nth(x, k);
                }
                *k -= n;
            }
            None
        }
        _ => None,
    }
}
fn any_node<'a>(v: &'a mut J, r: &mut Rng) -> &'a mut J {
    let n = count(v);
    let mut k = r.below(n);
    // Not the same borrow twice.
    match nth(v, &mut k) {
        Some(x) => x,
        None => panic!("harness: lost in a document"),
    }
}
fn any_full<'a>(v: &'a mut J, r: &mut Rng, obj: bool) -> Option<&'a mut J> {
    fn full(v: &J, obj: bool, at: &mut u64, ok: &mut Vec<u64>) {
        let k = *at;
        *at += 1;
        match v {
            J::Obj(m) => {
                if !m.is_empty() {
                    ok.push(k);
                }
                m.iter().for_each(|(_, x)| full(x, obj, at, ok));
            }
            J::Arr(a) => {
                if !obj && !a.is_empty() {
                    ok.push(k);
                }
                a.iter().for_each(|x| full(x, obj, at, ok));
            }
            _ => {}
        }
    }
    let mut ok = Vec::new();
    full(v, obj, &mut 0, &mut ok);
    if ok.is_empty() {
        return None;
    }
    let mut k = ok[r.below(ok.len() as u64) as usize];
    nth(v, &mut k)
}

fn wrong(r: &mut Rng) -> J {
    match r.below(30) {
        0 | 1 => J::Null,
        2 => J::Bool(true),
        3 => J::Bool(false),
        4 => J::Int(0),
        5 => J::Int(-1),
        6 => J::Flt(1.5),
        7 => s(""),
        8 => s("x"),
        9 => J::Arr(vec![]),
        10 => J::obj(),
        11 => J::Arr(vec![J::Null]),
        12 => J::Arr(vec![s("x"), J::Int(1)]),
        13 => J::Obj(vec![("header".into(), J::Null)]),
        14 => J::Int(u64::MAX as i128),
        15 => J::Int(i64::MIN as i128),
        16 => J::Int(1 << 32),
        17 => J::Int(256),
        18 => J::Int(65536),
        19 => s(OPS[r.below(OPS.len() as u64) as usize]),
        20 => s(TYPES[r.below(TYPES.len() as u64) as usize]),
        21 => s(SCHEMES[r.below(SCHEMES.len() as u64) as usize]),
        22 => s("2024-02-30T00:00:00Z"),
        23 => s("2024-02-29T23:59:60Z"),
        24 => s("1"),
        25 => s("true"),
        26 => J::Flt(1e300),
        27 => J::Flt(-0.0),
        28 => J::Int(255),
        _ => J::Arr(vec![J::Arr(vec![])]),
    }
}

fn word(r: &mut Rng) -> String {
    let n = [
        N::Thing, N::Prop, N::Action, N::Event, N::Ds, N::Link, N::Form, N::Resp, N::AddResp, N::Sec,
        N::Version, N::Block, N::Header, N::Sub,
    ][r.below(14) as usize];
    let mut fs = gram::base_fields(n, gram::Set::All);
    if n == N::Ds {
        let ty = TYPES[r.below(TYPES.len() as u64) as usize];
        gram::subtype_fields(ty, gram::Set::All, &mut fs);
    }
    let all: Vec<&str> = fs.iter().flat_map(|f| f.iter()).map(|f| f.n).collect();
    match r.below(12) {
        0 => "type".into(),
        1 => "scheme".into(),
        _ => all[r.below(all.len() as u64) as usize].to_string(),
    }
}

/// Changes one thing; gives what was done.
pub fn tamper(d: &mut J, other: &J, r: &mut Rng) -> &'static str {
    match r.below(12) {
        0..=2 => {
            *any_node(d, r) = wrong(r);
            "value replaced"
        }
        3 => {
            let mut o = other.clone();
            let x = any_node(&mut o, r).clone();
            *any_node(d, r) = x;
            "part of another document spliced in"
        }
        4 | 5 => {
            match any_full(d, r, false) {
                Some(J::Obj(m)) => {
                    let i = r.below(m.len() as u64) as usize;
                    m.remove(i);
                }
                Some(J::Arr(a)) => {
                    let i = r.below(a.len() as u64) as usize;
                    a.remove(i);
                }
                _ => *d = J::obj(),
            }
            "part removed"
        }
        6 => {
            if let Some(J::Obj(m)) = any_full(d, r, true) {
                let i = r.below(m.len() as u64) as usize;
                let mut x = m[i].clone();
                if r.chance(1, 2) {
                    x.1 = wrong(r);
                }
                let at = r.below(m.len() as u64 + 1) as usize;
                m.insert(at, x);
            }
            "member repeated"
        }
        7 => {
            if let Some(J::Obj(m)) = any_full(d, r, true) {
                let i = r.below(m.len() as u64) as usize;
                let k = &mut m[i].0;
                *k = match r.below(5) {
                    0 => k.to_uppercase(),
                    1 => k.to_lowercase(),
                    2 => format!("{k} "),
                    3 => k.chars().skip(1).collect(),
                    _ => word(r),
                };
            }
            "member renamed"
        }
        8 => {
            let x = any_node(d, r);
            let v = std::mem::replace(x, J::Null);
            *x = match r.below(3) {
                0 => J::Obj(vec![("x".into(), v)]),
                _ => J::Arr(vec![v]),
            };
            "value wrapped"
        }
        9 => {
            if let Some(x) = any_full(d, r, false) {
                let v = match x {
                    J::Arr(a) => a[0].clone(),
                    J::Obj(m) => {
                        let i = r.below(m.len() as u64) as usize;
                        m[i].1.clone()
                    }
                    _ => J::Null,
                };
                *x = v;
            }
            "value unwrapped"
        }
        10 => {
            match any_full(d, r, false) {
                Some(J::Obj(m)) => {
                    let (a, b) = (r.below(m.len() as u64) as usize, r.below(m.len() as u64) as usize);
                    if a != b {
                        let x = m[a].1.clone();
                        m[a].1 = std::mem::replace(&mut m[b].1, x);
                    }
                }
                Some(J::Arr(v)) => {
                    let (a, b) = (r.below(v.len() as u64) as usize, r.below(v.len() as u64) as usize);
                    v.swap(a, b);
                }
                _ => {}
            }
            "values swapped"
        }
        _ => {
            let k = word(r);
            let v = if r.chance(1, 2) {
                wrong(r)
            } else {
                let mut o = other.clone();
                any_node(&mut o, r).clone()
            };
            if let Some(J::Obj(m)) = any_full(d, r, true) {
                let at = r.below(m.len() as u64 + 1) as usize;
                if !m.iter().any(|(n, _)| *n == k) {
                    m.insert(at, (k, v));
                }
            }
            "member inserted"
        }
    }
}

// ---------------------------------------------------------------- damage to the bytes

const BITS: &[&[u8]] = &[
    b"\"", b"{", b"}", b"[", b"]", b",", b":", b"\\", b"\x00", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xef\xbb\xbf",
    b"\\ud800", b"\\udc00", b"\\u00", b"1e400", b"-", b"0", b"01", b".5", b"\n", b"\x0c", b"\x7f", b"null", b"NaN",
    b"//", b"'", b"tru", b"\xe2\x80\xa8", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"e", b"\t",
];

pub fn damage(b: &mut Vec<u8>, other: &[u8], r: &mut Rng) -> &'static str {
    let n = b.len() as u64;
    if n == 0 {
        return "bytes lost";
    }
    let span = |r: &mut Rng| {
        let a = r.below(n) as usize;
        let max = [3, 20, 400][r.below(3) as usize];
        let l = 1 + r.below(max) as usize;
        (a, (a + l).min(n as usize))
    };
    match r.below(12) {
        0 | 1 => {
            let i = r.below(n) as usize;
            b[i] ^= 1 << r.below(8);
            "bit flipped"
        }
        2 => {
            let i = r.below(n) as usize;
            b[i] = r.below(256) as u8;
            "byte replaced"
        }
        3 => {
            let (a, e) = span(r);
            b.drain(a..e);
            "bytes lost"
        }
        4 => {
            let (a, e) = span(r);
            let x = b[a..e].to_vec();
            b.splice(e..e, x);
            "bytes doubled"
        }
        5 | 6 => {
            let i = r.below(n + 1) as usize;
            let x = BITS[r.below(BITS.len() as u64) as usize];
            b.splice(i..i, x.iter().copied());
            "bytes inserted"
        }
        7 => {
            let i = r.below(n) as usize;
            b.truncate(i);
            "document cut"
        }
        8 => {
            let i = r.below(n) as usize;
            let k = r.below(other.len() as u64) as usize;
            b.truncate(i);
            b.extend_from_slice(&other[k..]);
            "documents spliced"
        }
        9 => {
            match r.below(4) {
                0 => b.extend_from_slice(other),
                1 => b.extend_from_slice(b"\0\0\0\0"),
                2 => b.extend_from_slice(BITS[r.below(BITS.len() as u64) as usize]),
                _ => b.extend_from_slice(b" \n "),
            }
            "tail added"
        }
        10 => {
            let (a, e) = span(r);
            b[a..e].fill(0);
            "bytes zeroed"
        }
        _ => {
            // Nested far beyond what anybody means.
            let i = r.below(n) as usize;
            let k = [130, 1000, 60_000][r.below(3) as usize];
            let x: &[u8] = [b"[".as_slice(), b"{\"oneOf\":[", b"{\"type\":\"array\",\"items\":"][r.below(3) as usize];
            let mut ins = Vec::new();
            for _ in 0..k {
                ins.extend_from_slice(x);
            }
            b.splice(i..i, ins);
            "nested without end"
        }
    }
}
