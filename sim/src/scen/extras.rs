//! Protocol nodes that are sent malformed binding values, and clocks that show odd times.

use simcore::{
    cx::{clip, Cx, Run},
    dates,
    gen::G,
    gram::{self, Meaning, Set},
    j::{self, s, J},
    tape::Rng,
};
use time::{OffsetDateTime, UtcOffset};
use wot_td::Thing;

use super::*;

// ---------------------------------------------------------------- bindings

const NAMES: &[(&str, bool)] = &[
    ("htv:methodName", false),
    ("cov:method", false),
    ("cov:blockwise", false),
    ("cov:qblockwise", false),
    ("cov:hopLimit", false),
    ("cov:accept", false),
    ("cov:contentFormat", false),
    ("mqv:retain", false),
    ("mqv:controlPacket", false),
    ("mqv:qos", false),
    ("mqv:topic", false),
    ("mqv:filter", false),
    ("htv:headers", true),
    ("htv:statusCodeValue", true),
    ("cov:contentFormat", true),
];

fn value(r: &mut Rng, name: &str) -> J {
    let words = [
        "GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH", "IPATCH", "get", "Get", "OPTIONS", "HEAD", "",
        "mqv:publish", "mqv:subscribe", "mqv:unsubscribe", "publish", "subscribe", "quality:0", "quality:1",
        "quality:2", "quality:3", "0", "1", "atMostOnce", "GET ", "Ipatch", "200", "true",
    ];
    let nums: [i128; 24] = [
        0, 1, 2, 15, 16, 17, 32, 64, 100, 128, 255, 256, 512, 1023, 1024, 2048, 65535, 65536, -1, -16, 200, 404,
        1 << 32, u64::MAX as i128,
    ];
    let plain = |r: &mut Rng| match r.below(8) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 | 3 => J::Int(nums[r.below(24) as usize]),
        4 => J::Flt([1.0, 0.5, 16.0, 1e30][r.below(4) as usize]),
        _ => s(words[r.below(words.len() as u64) as usize]),
    };
    match r.below(6) {
        0 => J::Arr((0..r.below(3)).map(|_| plain(r)).collect()),
        1 | 2 if name.ends_with("blockwise") => {
            let mut m = Vec::new();
            for n in ["cov:block1Size", "cov:block2Size"] {
                if r.chance(2, 3) {
                    m.push((n.to_string(), plain(r)));
                }
            }
            J::Obj(m)
        }
        1..=3 if name == "htv:headers" => {
            let mut a = Vec::new();
            for _ in 0..r.below(3) {
                let mut m = Vec::new();
                for n in ["htv:fieldName", "htv:fieldValue"] {
                    if r.chance(2, 3) {
                        m.push((n.to_string(), plain(r)));
                    }
                }
                a.push(J::Obj(m));
            }
            J::Arr(a)
        }
        _ => plain(r),
    }
}

/// Forms and responses, by what they have.
fn places<'a>(v: &'a mut J, resp: bool, out: &mut Vec<&'a mut J>) {
    let has = |n: &str| v.get(n).is_some();
    let form = has("href") && !has("rel") && !has("sizes");
    if form && !resp {
        out.push(v);
        return;
    }
    match v {
        J::Obj(m) => {
            for (k, x) in m {
                if form && k == "response" {
                    out.push(x);
                } else if k != "const" && k != "default" && k != "enum" {
                    places(x, resp, out);
                }
            }
        }
        J::Arr(a) => a.iter_mut().for_each(|x| places(x, resp, out)),
        _ => {}
    }
}

pub fn bindings(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    let set = *cx.t.pick(&[Set::EP, Set::EP, Set::Http, Set::Coap, Set::Mqtt]);
    let doc = G::new(&mut cx.t, Set::EP, false).doc();
    let rounds = if cx.thorough { 30 } else { 12 };
    for _ in 0..rounds {
        let dmg = cx.t.subseed();
        let mut r = Rng::new(dmg);
        let mut d = doc.clone();
        let (name, resp) = NAMES[r.below(NAMES.len() as u64) as usize];
        {
            let mut at = Vec::new();
            places(&mut d, resp, &mut at);
            if at.is_empty() {
                continue;
            }
            let i = r.below(at.len() as u64) as usize;
            let v = value(&mut r, name);
            at[i].set(name, v);
        }
        let style = cx.t.subseed();
        let b = foreign_text(&d, style);
        cx.bytes(&b);
        let how = pick_in(cx);
        cx.fault("binding value replaced");
        cx.step(dmg, "binding value replaced");
        let got = parse_on(cx, &p, set, &b, how)?;
        let text = || clip(&String::from_utf8_lossy(&b), 2000);
        match (gram::read(&d, set), got) {
            (Meaning::Unsure, _) => cx.count("binding values of unsure meaning"),
            (Meaning::Bad(_), Err(_)) => cx.count("malformed binding values refused"),
            (Meaning::Bad(e), Ok(t)) => {
                return cx.fail(format!(
                    "a malformed binding value was taken by {set:?} ({how:?}): {e}: {}; document: {}",
                    clip(&t.observe().text(), 500),
                    text()
                ))
            }
            (Meaning::Is(w), Ok(t)) | (Meaning::ErrOr(w), Ok(t)) => {
                cx.count("binding values read");
                expect(cx, &w, &t.observe(), &|| format!("binding value read by {set:?} ({how:?}); document: {}", text()))?;
                // And published again with the names and values of the binding vocabularies.
                let out = pick_out(cx);
                let b2 = write_on(cx, &p, &t, out)?;
                match judge_text(&b2, set) {
                    Ok(c) => expect(cx, &w, &c, &|| format!("binding value published by {set:?}; document: {}", text()))?,
                    Err(e) if e.contains("htv:") || e.contains("cov:") || e.contains("mqv:") => {
                        return cx.fail(format!("published by {set:?}: {e}; text: {}", clip(&String::from_utf8_lossy(&b2), 2000)))
                    }
                    Err(_) => cx.count("improper text"),
                }
            }
            (Meaning::Is(_), Err(e)) => {
                return cx.fail(format!("a proper binding value was refused by {set:?} ({how:?}): {e}; document: {}", text()))
            }
            (Meaning::ErrOr(_), Err(_)) => cx.count("binding values of unsure meaning"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- clocks

/// What a clock that was set by whatever means shows.
fn clock(cx: &mut Cx) -> OffsetDateTime {
    let off = match cx.t.draw(8) {
        0 | 1 => (0, 0, 0),
        2 => (cx.t.draw(24) as i8, cx.t.draw(60) as i8, 0),
        3 => (-(cx.t.draw(24) as i8), -(cx.t.draw(60) as i8), 0),
        4 => (cx.t.draw(24) as i8, cx.t.draw(60) as i8, cx.t.draw(60) as i8),
        5 => (0, 0, 1 + cx.t.draw(59) as i8),
        6 => (-23, -59, 0),
        _ => (*cx.t.pick(&[1i8, 5, -3, 14, -12]), *cx.t.pick(&[0i8, 30, 45]), 0),
    };
    let off = if (off.0 < 0) != (off.1 < 0) && off.0 != 0 && off.1 != 0 { (off.0, -off.1, 0) } else { off };
    let off = UtcOffset::from_hms(off.0, off.1, off.2).unwrap_or(UtcOffset::UTC);
    let year = match cx.t.draw(8) {
        0..=2 => 1970 + cx.t.draw(120) as i64,
        3 => cx.t.draw(10_000) as i64,
        4 => *cx.t.pick(&[0i64, 9999, 1, 9998, 999, 1000]),
        5 => -1 - cx.t.draw(9_998) as i64,
        6 => *cx.t.pick(&[-1i64, -9999, 9999, 0]),
        _ => 2000 + cx.t.draw(30) as i64,
    };
    let day = cx.t.draw(366) as i64;
    let edge = cx.t.draw(6);
    let secs = match edge {
        0 => 0,
        1 => 86_399,
        _ => cx.t.draw(86_400) as i64,
    };
    let days = match edge {
        0 => 0,
        1 => 365,
        _ => day,
    };
    let nanos = match cx.t.draw(5) {
        0 => 0,
        1 => 999_999_999,
        2 => cx.t.draw(1000) as i128 * 1_000_000,
        3 => 1,
        _ => cx.t.draw(1_000_000_000) as i128,
    };
    let unix = (dates::days(year, 1, 1) + days) as i128 * 86_400 + secs as i128;
    let at = OffsetDateTime::from_unix_timestamp_nanos(unix * 1_000_000_000 + nanos).unwrap_or(OffsetDateTime::UNIX_EPOCH);
    match at.checked_to_offset(off) {
        Some(x) => x,
        None => at,
    }
}

pub fn clocks(cx: &mut Cx) -> Run {
    let seed = cx.t.subseed();
    let p = Proc::spawn(seed);
    let rounds = if cx.thorough { 24 } else { 10 };
    for _ in 0..rounds {
        let stamp = |cx: &mut Cx| if cx.t.chance(2, 3) { Some(clock(cx)) } else { None };
        let (c, m) = (stamp(cx), stamp(cx));
        let text = |x: Option<OffsetDateTime>| x.map(|x| dates::spell(x.unix_timestamp_nanos(), x.offset().whole_seconds()));
        let (wc, wm) = (text(c), text(m));
        cx.fault("clock jump");
        cx.step(seed, "stamped");
        let first = cx.t.chance(1, 2);
        let cut = pick_cut(cx);
        let mut sink = Sink::new(cut, Stop::Never);
        let via_value = cx.t.chance(1, 3);
        let r = p.call(|| {
            let mut b = Thing::builder("t");
            if first {
                if let Some(m) = m {
                    b = b.modified(m);
                }
            }
            if let Some(c) = c {
                b = b.created(c);
            }
            if !first {
                if let Some(m) = m {
                    b = b.modified(m);
                }
            }
            let t: Thing = b.finish_extend().build().map_err(|e| format!("refused: {e}"))?;
            if t.created != c || t.modified != m {
                return Err(format!("stamped {c:?} {m:?}, has {:?} {:?}", t.created, t.modified));
            }
            let w = if via_value {
                serde_json::to_value(&t).and_then(|v| serde_json::to_writer(&mut sink, &v))
            } else {
                serde_json::to_writer(&mut sink, &t)
            };
            if t.created != c || t.modified != m {
                return Err(format!("after writing, stamps {c:?} {m:?} are {:?} {:?}", t.created, t.modified));
            }
            Ok(w.map_err(|e| e.to_string()))
        });
        let says = format!("created {c:?}, modified {m:?}");
        let w = match r {
            Err(e) => return cx.fail(format!("panic while publishing a Thing {says}: {e}")),
            Ok(Err(e)) => return cx.fail(format!("{says}: {e}")),
            Ok(Ok(w)) => w,
        };
        cx.bytes(&sink.data);
        cx.say(|| format!("{says}: {w:?} {}", clip(&String::from_utf8_lossy(&sink.data), 300)));
        let odd = matches!(wc, Some(None)) || matches!(wm, Some(None));
        match w {
            Err(e) => {
                if !odd {
                    return cx.fail(format!("{says} could not be published: {e}"));
                }
                cx.count("inexpressible times reported");
            }
            Ok(()) => {
                if odd {
                    return cx.fail(format!(
                        "{says} cannot be expressed and was published as {}",
                        clip(&String::from_utf8_lossy(&sink.data), 300)
                    ));
                }
                cx.count("times published");
                let doc = match j::parse(&sink.data) {
                    Ok(d) => d,
                    Err(e) => return cx.fail(format!("{says} gave no JSON text: {e:?}")),
                };
                for (n, w, x) in [("created", wc.flatten(), c), ("modified", wm.flatten(), m)] {
                    let got = doc.get(n).map(|v| v.str().map(dates::canon));
                    let fine = match (&got, &w) {
                        (None, None) => true,
                        (Some(Some(Ok(g))), Some(w)) => g == w,
                        _ => false,
                    };
                    if !fine {
                        return cx.fail(format!("{n} {x:?} was published as {:?}", doc.get(n)));
                    }
                }
                let back = p.call(|| serde_json::from_slice::<Thing>(&sink.data).map(|t| (t.created, t.modified)).map_err(|e| e.to_string()));
                match back {
                    Ok(Ok((bc, bm))) => {
                        for (n, x, y) in [("created", c, bc), ("modified", m, bm)] {
                            let key = |x: Option<OffsetDateTime>| x.map(|x| (x.unix_timestamp_nanos(), x.offset().whole_seconds()));
                            if key(x) != key(y) {
                                return cx.fail(format!("{n} {x:?} was read back as {y:?}"));
                            }
                        }
                    }
                    x => return cx.fail(format!("{says} cannot be read back: {x:?}; text: {}", String::from_utf8_lossy(&sink.data))),
                }
            }
        }
    }
    // Times as others spell them, and times that are none.
    for _ in 0..rounds {
        let d = cx.t.subseed();
        let mut r = Rng::new(d);
        let x = spelling(&mut r);
        let name = if r.chance(1, 2) { "created" } else { "modified" };
        let mut doc = j::parse(br#"{"@context":"https://www.w3.org/2022/wot/td/v1.1","title":"t","security":[],"securityDefinitions":{}}"#)
            .unwrap_or(J::Null);
        doc.set(name, s(x.clone()));
        let b = foreign_text(&doc, d % 64);
        cx.bytes(&b);
        cx.fault("time spelled by another implementation");
        let how = pick_in(cx);
        let set = *cx.t.pick(&[Set::Nil, Set::EP, Set::E2]);
        let got = parse_on(cx, &p, set, &b, how)?;
        match (dates::canon(&x), got) {
            (Err(true), _) => cx.count("times of unsure meaning"),
            (Err(false), Err(_)) => cx.count("malformed times refused"),
            (Err(false), Ok(t)) => return cx.fail(format!("{name} {x:?} was read as {:?}", t.observe().get(name))),
            (Ok(_), Err(e)) => return cx.fail(format!("{name} {x:?} was refused: {e}")),
            (Ok(c), Ok(t)) => {
                cx.count("times read");
                let o = t.observe();
                let other = if name == "created" { "modified" } else { "created" };
                if o.get(name) != Some(&s(c.clone())) || o.get(other).is_some() {
                    return cx.fail(format!("{name} {x:?} was read as {:?} {:?}, not {c}", o.get("created"), o.get("modified")));
                }
                let out = pick_out(cx);
                let b2 = write_on(cx, &p, &t, out)?;
                let w = j::parse(&b2).ok().and_then(|d| d.get(name).and_then(|v| v.str().map(dates::canon)));
                if w != Some(Ok(c)) {
                    return cx.fail(format!("{name} {x:?} was relayed as {}", clip(&String::from_utf8_lossy(&b2), 400)));
                }
            }
        }
    }
    Ok(())
}

fn spelling(r: &mut Rng) -> String {
    let y = [r.below(10_000), 2024, 2023, 1900, 2000, 0, 9999][r.below(7) as usize];
    let mo = [1 + r.below(12), 2, 12, 1 + r.below(14)][r.below(4) as usize];
    let d = [1 + r.below(28), 29, 30, 31, r.below(33)][r.below(5) as usize];
    let h = [r.below(24), 23, 0, r.below(26)][r.below(4) as usize];
    let mi = [r.below(60), 59, 0, r.below(62)][r.below(4) as usize];
    let se = [r.below(60), 59, 0, r.below(62)][r.below(4) as usize];
    let mut x = format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{se:02}");
    let digits = [0, 0, 1, 3, 6, 9, 9, 10, 12][r.below(9) as usize];
    if digits > 0 {
        x.push('.');
        for _ in 0..digits {
            x.push((b'0' + r.below(10) as u8) as char);
        }
    }
    match r.below(8) {
        0 | 1 => x.push('Z'),
        2 => x.push_str("+00:00"),
        3 => x.push_str("-00:00"),
        4 => x.push_str(["", "+0000", "+1", "UTC", "+25:00", "+10:60", "z"][r.below(7) as usize]),
        _ => x.push_str(&format!("{}{:02}:{:02}", if r.chance(1, 2) { '+' } else { '-' }, r.below(24), r.below(60))),
    }
    if r.chance(1, 12) {
        let i = r.below(x.len() as u64) as usize;
        let c = ["x", " ", "-", "9", ""][r.below(5) as usize];
        x.replace_range(i..i + 1, c);
    }
    x
}
