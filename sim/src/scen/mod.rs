//! The scenarios: what is simulated for each property, and what is checked.

pub mod corrupt;
pub mod deploy;
pub mod extend;
pub mod extras;
pub mod hashes;
pub mod modules;
pub mod parts;
pub mod rewrite;
pub mod share;
pub mod streams;
pub mod wraps;

use std::{io::ErrorKind, sync::Arc};

use simcore::{
    cx::{clip, Cx, Run, Viol},
    gen::{fold, G},
    gram::{self, Set, N},
    io::{Cut, End, Sink, Source, Stop, KINDS, WHOLE},
    j::{self, Style, J},
    tape::Rng,
    Call,
};

use crate::{
    any::{self, AnyThing, Src},
    drive::St,
    proc::Proc,
};

pub type Th = Arc<dyn AnyThing>;
pub type Res<T> = Result<T, Viol>;

/// What a producer wants to publish, and what that says.
#[derive(Clone)]
pub struct Made {
    pub set: Set,
    pub title: String,
    pub ext: J,
    pub calls: Vec<Call>,
    pub style: u64,
}

impl Made {
    pub fn new(cx: &mut Cx, set: Set) -> Self {
        let (title, ext, calls) = G::new(&mut cx.t, set, true).calls();
        let style = cx.t.subseed();
        Made {
            set,
            title,
            ext,
            calls,
            style,
        }
    }
    pub fn want(&self) -> J {
        gram::canon(&fold(&self.title, &self.ext, &self.calls), self.set)
            .unwrap_or_else(|e| panic!("harness: contributions without meaning: {e}"))
    }
}

pub fn build_on(cx: &mut Cx, p: &Proc, m: &Made) -> Res<Result<Th, String>> {
    let r = p.call(|| {
        any::build(m.set, &m.title, &m.ext, &m.calls, &mut St::new(m.style), &mut || {})
            .map(Th::from)
            .map_err(|e| err_key(&e))
    });
    match r {
        Ok(r) => Ok(r),
        Err(e) => cx.fail(format!("panic while building: {e}")),
    }
}

/// The refusal, and what it tells the user if that does not name what is wrong.
pub fn err_key(e: &wot_td::builder::Error) -> String {
    let key = key_of(e);
    let text = e.to_string();
    let mut words: Vec<&str> = key.split(' ').skip(1).collect();
    // A name may have spaces in it.
    let name = match e {
        wot_td::builder::Error::DuplicatedAffordance { .. } | wot_td::builder::Error::InvalidOpInForm { .. } => None,
        _ => key.split_once(' ').map(|x| x.1),
    };
    let named = match (e, name) {
        (_, Some(n)) => text.contains(n),
        (wot_td::builder::Error::DuplicatedAffordance { name, .. }, _) => {
            words = vec![["property", "action", "event"]
                [["properties", "actions", "events"].iter().position(|x| *x == words[0]).expect("harness")]];
            // The name may be part of the word for the kind.
            text.match_indices(name.as_str()).any(|(i, n)| {
                format!("{} {}", &text[..i], &text[i + n.len()..]).to_lowercase().contains(words[0])
            })
        }
        (wot_td::builder::Error::InvalidOpInForm { .. }, _) => {
            let place = match words[0] {
                "Thing" => "thing",
                "Prop" => "property",
                "Action" => "action",
                _ => "event",
            };
            let rest = text.replacen(words[1], "", 1);
            // As a word: `readproperty` says something else than `readallproperties`.
            text.split(|c: char| !c.is_alphanumeric()).any(|w| w == words[1])
                && rest.to_lowercase().contains(place)
        }
        _ => !text.is_empty(),
    };
    if named {
        key
    } else {
        format!("{key}, told as {text:?}")
    }
}

fn key_of(e: &wot_td::builder::Error) -> String {
    use wot_td::builder::{AffordanceType, Error::*, FormContext};
    match e {
        DuplicatedSecurityDefinition(n) => format!("DuplicatedSecurityDefinition {n}"),
        MissingOpInForm => "MissingOpInForm".into(),
        InvalidOpInForm { context, operation } => {
            let c = match context {
                FormContext::Thing => N::Thing,
                FormContext::Property => N::Prop,
                FormContext::Action => N::Action,
                FormContext::Event => N::Event,
            };
            format!("InvalidOpInForm {c:?} {}", crate::observe::op_name(*operation))
        }
        UndefinedSecurity(n) => format!("UndefinedSecurity {n}"),
        InvalidMinMax => "InvalidMinMax".into(),
        NanMinMax => "NanMinMax".into(),
        DuplicatedAffordance { ty, name } => {
            let k = match ty {
                AffordanceType::Property => "properties",
                AffordanceType::Action => "actions",
                AffordanceType::Event => "events",
            };
            format!("DuplicatedAffordance {k} {name}")
        }
        InvalidMultipleOf => "InvalidMultipleOf".into(),
        MissingSchemaDefinition(n) => format!("MissingSchemaDefinition {n}"),
        InvalidUriVariables => "InvalidUriVariables".into(),
        InvalidLanguageTag(l) => format!("InvalidLanguageTag {l}"),
        SizesWithRelNotIcon => "SizesWithRelNotIcon".into(),
    }
}

/// How a node turns a Thing into bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Compact,
    Pretty,
    /// Through a `serde_json::Value`.
    Value,
}

pub fn pick_out(cx: &mut Cx) -> Out {
    *cx.t.pick(&[Out::Compact, Out::Compact, Out::Pretty, Out::Value])
}

/// How a node reads bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    Slice,
    Reader(Cut2),
    Value,
}
pub type Cut2 = (usize, u64, u64);

pub fn pick_in(cx: &mut Cx) -> In {
    match cx.t.draw(4) {
        0 => In::Slice,
        1 => In::Value,
        _ => {
            let max = *cx.t.pick(&[64usize, 1, 2, 7, 4096]);
            let ints = *cx.t.pick(&[0u64, 0, 2, 6]);
            let seed = cx.t.subseed();
            In::Reader((max, ints, seed))
        }
    }
}

pub fn cut_of(c: Cut2) -> Cut {
    Cut {
        max: c.0,
        interrupts: c.1,
        seed: c.2,
    }
}

pub fn pick_cut(cx: &mut Cx) -> Cut {
    let max = *cx.t.pick(&[0usize, 1, 2, 5, 33, 512]);
    let interrupts = *cx.t.pick(&[0u64, 0, 1, 4, 10]);
    let seed = cx.t.subseed();
    Cut {
        max,
        interrupts,
        seed,
    }
}
pub fn pick_kind(cx: &mut Cx) -> ErrorKind {
    *cx.t.pick(KINDS)
}

pub fn write_plain(t: &dyn AnyThing, out: Out) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    match out {
        Out::Compact => t.write(&mut v, false).map_err(|e| e.to_string())?,
        Out::Pretty => t.write(&mut v, true).map_err(|e| e.to_string())?,
        Out::Value => {
            let x = t.to_value().map_err(|e| e.to_string())?;
            v = serde_json::to_vec(&x).map_err(|e| e.to_string())?;
        }
    }
    Ok(v)
}

/// Serialises on the node; a failure without any fault is a violation.
pub fn write_on(cx: &mut Cx, p: &Proc, t: &Th, out: Out) -> Res<Vec<u8>> {
    match p.call(|| write_plain(&**t, out)) {
        Ok(Ok(b)) => {
            cx.bytes(&b);
            Ok(b)
        }
        Ok(Err(e)) => cx.fail(format!("writing to a working sink ({out:?}) failed: {e}")),
        Err(e) => cx.fail(format!("panic while writing ({out:?}): {e}")),
    }
}

/// Serialises into a faulty sink. `Ok(Err(..))` when the write was reported as failed.
pub fn write_faulty(cx: &mut Cx, p: &Proc, t: &Th, cut: Cut, stop: Stop) -> Res<(Vec<u8>, Result<(), String>, bool)> {
    let mut sink = Sink::new(cut, stop);
    let r = p.call(|| t.write(&mut sink, false).map_err(|e| e.to_string()));
    if sink.interrupted > 0 {
        cx.add("fault: write interrupted", sink.interrupted);
    }
    if sink.short > 0 {
        cx.add("fault: short write", sink.short);
    }
    match r {
        Ok(r) => Ok((sink.data, r, sink.stopped)),
        Err(e) if e.contains(simcore::io::KILLED) => Ok((sink.data, Err(e), true)),
        Err(e) => cx.fail(format!("panic while writing: {e}")),
    }
}

pub fn parse_plain(set: Set, b: &[u8], how: In) -> Result<Th, String> {
    match how {
        In::Slice => any::parse(set, Src::Slice(b)),
        In::Value => match serde_json::from_slice(b) {
            Ok(v) => any::parse(set, Src::Value(v)),
            Err(e) => Err(e),
        },
        In::Reader(c) => any::parse(set, Src::Reader(&mut Source::new(b, cut_of(c), End::Whole))),
    }
    .map(Th::from)
    .map_err(|e| e.to_string())
}

pub fn parse_on(cx: &mut Cx, p: &Proc, set: Set, b: &[u8], how: In) -> Res<Result<Th, String>> {
    match p.call(|| parse_plain(set, b, how)) {
        Ok(r) => Ok(r),
        Err(e) => cx.fail(format!(
            "panic while reading ({set:?}, {how:?}): {e}; document: {}",
            clip(&String::from_utf8_lossy(b), 600)
        )),
    }
}

/// Reads a document that has to be readable.
pub fn must_parse(cx: &mut Cx, p: &Proc, set: Set, b: &[u8], how: In, who: &str) -> Res<Th> {
    match parse_on(cx, p, set, b, how)? {
        Ok(t) => Ok(t),
        Err(e) => cx.fail(format!(
            "{who} ({set:?}, {how:?}) cannot read an intact document: {e}; document: {}",
            clip(&String::from_utf8_lossy(b), 1500)
        )),
    }
}

/// Is a difference at this path the business of the property being checked?
pub fn relevant(prop: &str, path: &[String]) -> bool {
    let is = |f: &dyn Fn(&str) -> bool| path.iter().any(|x| f(x));
    match prop {
        "C12" => path.len() == 1 && is(&|x| x == "created" || x == "modified"),
        "C10" => is(&|x| x.starts_with("htv:") || x.starts_with("cov:") || x.starts_with("mqv:")),
        "C09" => is(&|x| {
            ["htv:", "cov:", "mqv:", "a:", "b:"].iter().any(|p| x.starts_with(p))
        }),
        _ => true,
    }
}

/// Compares what was obtained with what is meant.
pub fn expect(cx: &mut Cx, want: &J, got: &J, what: &dyn Fn() -> String) -> Run {
    if let Some(d) = first_diff(cx.prop, want, got) {
        return cx.fail(format!("{}: {d}", what()));
    }
    Ok(())
}

pub fn first_diff(prop: &str, want: &J, got: &J) -> Option<String> {
    j::diff(want, got)?;
    j::diffs(want, got)
        .into_iter()
        .find(|(p, _)| relevant(prop, p))
        .map(|(p, m)| format!("at /{}: {}", p.join("/"), clip(&m, 400)))
}

/// Judges a published text; gives its canonical meaning.
pub fn judge_text(b: &[u8], set: Set) -> Result<J, String> {
    let doc = j::parse(b).map_err(|e| format!("not one JSON text: {e:?}"))?;
    gram::strict(&doc, set)
}

/// A document of another implementation, as text.
pub fn foreign_text(doc: &J, seed: u64) -> Vec<u8> {
    let mut o = String::new();
    let mut r = Rng::new(seed);
    let st = if seed == 0 {
        Style::default()
    } else {
        Style {
            white: r.below(3) as u8,
            escape: r.below(3) as u8,
            shuffle: r.chance(2, 3),
            floats: r.chance(1, 2),
        }
    };
    j::write(doc, &mut o, &st, &mut r);
    o.into_bytes()
}

/// What kind of description this is, for the count of distinct ones: its member names and types
/// without the values.
pub fn shape(v: &J) -> u64 {
    fn go(v: &J, h: &mut u64) {
        let add = |h: &mut u64, x: u64| {
            *h = (*h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(5);
        };
        match v {
            J::Null => add(h, 1),
            J::Bool(_) => add(h, 2),
            J::Int(_) => add(h, 3),
            J::Flt(_) => add(h, 4),
            J::Str(_) => add(h, 5),
            J::Arr(a) => {
                add(h, 6);
                a.iter().for_each(|x| go(x, h));
                add(h, 7);
            }
            J::Obj(m) => {
                add(h, 8);
                for (k, x) in m {
                    let named = k.starts_with('k') && k[1..].parse::<u64>().is_ok();
                    add(h, if named { 9 } else { simcore::cx::hash_bytes(k.as_bytes()) });
                    go(x, h);
                }
                add(h, 10);
            }
        }
    }
    let mut h = 0xcbf2_9ce4_8422_2325;
    go(v, &mut h);
    h
}

pub fn note(cx: &mut Cx, canonical: &J) {
    let h = shape(canonical);
    cx.shape(h);
    cx.count("descriptions");
}

pub const WHOLE_CUT: Cut = WHOLE;

pub fn run(cx: &mut Cx) -> Run {
    match cx.prop {
        "C04" => streams::c04(cx),
        "C05" => streams::c05(cx),
        "C06" => hashes::run(cx),
        "C07" | "C08" => modules::run(cx),
        "C09" => extend::run(cx),
        "C11" => share::run(cx),
        "C13" => corrupt::run(cx),
        "C14" => rewrite::run(cx),
        "C18" => parts::run(cx),
        "C19" => wraps::run(cx),
        "C10" if cx.t.chance(1, 4) => extras::bindings(cx),
        "C12" if cx.t.chance(1, 3) => extras::clocks(cx),
        _ => deploy::run(cx),
    }
}

/// How the runs of a property are made.
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C04" | "C05" => "Random descriptions, built or foreign, through simulated streams that deliver in pieces, are interrupted, end, fill up or fail at drawn bytes.",
        "C06" => "Random contributions or documents, processed by several simulated processes with their own hash seeds and by restarted ones, and variants that differ in one member.",
        "C07" => "Random contributions, with drawn rules broken, dealt to modules whose interleaving, repetition and death the scheduler draws.",
        "C08" => "Random contributions dealt to modules whose interleaving, repetition and death the scheduler draws.",
        "C09" => "Random descriptions with extension members, read by nodes with every combination of extensions, and extensions that fail or panic at drawn calls.",
        "C11" => "Threads with drawn operations on shared Things, switched at drawn transfers, extension calls and operations, and made to fail or panic there.",
        "C13" => "Random documents with drawn tampering of their structure or damage to their bytes.",
        "C14" => "Random documents rewritten by a drawn chain of intermediaries into equivalent ones.",
        "C19" => "Random descriptions inside messages of drawn kinds between a server, a gateway that repacks them and a client, with drawn cuts and damage.",
        "C18" => "Random descriptions taken apart at drawn places, their parts sent over a network with drawn losses, repetitions, delays, cuts and deaths of the gathering node; a third of the runs reads parts that another implementation cut out, intact and damaged.",
        "C10" => "Random deployments of protocol nodes on a network and a disk with drawn faults; a quarter of the runs sends drawn binding values to protocol nodes.",
        "C12" => "Random deployments with drawn clock skew and jumps; a third of the runs stamps with drawn clocks and reads drawn spellings.",
        _ => "Random deployments of producers, a directory, gateways and consumers, with a schedule and faults of network, disk, clock and processes drawn step by step.",
    }
}

pub fn real(_: &str) -> Vec<&'static str> {
    vec![
        "wot-td: builders, build() with all its checks, extension lists, protocol bindings, Serialize, Deserialize, PartialEq, Debug",
        "serde, serde_json, serde_with, time, oxilangtag",
        "std collections with simulated hash seeds",
    ]
}

pub fn stubs(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["operating system randomness (getrandom)", "byte sources and sinks"];
    match prop {
        "C01" | "C02" | "C03" | "C10" | "C12" => v.extend([
            "network",
            "disk",
            "clocks",
            "processes (threads with their own hash seed; only the disk survives a crash)",
            "other implementations that produce and relay documents",
        ]),
        "C11" | "C07" | "C08" => v.push("thread scheduler (real threads, one runs at a time, the tape decides which)"),
        "C09" => v.push("extensions A and B with calls the simulator can make fail"),
        "C18" => v.extend([
            "network",
            "disk of the gathering node",
            "processes (threads with their own hash seed; only the disk survives a crash)",
            "another implementation that cuts descriptions into parts",
        ]),
        "C19" => v.extend(["processes (threads with their own hash seed)", "other implementations that wrap descriptions"]),
        "C14" | "C13" => v.push("intermediaries that rewrite or damage documents"),
        _ => v.push("processes (threads with their own hash seed)"),
    }
    v
}

pub const ASSUMPTIONS: &[&str] = &[
    "the vocabulary, the reference reader and the rules written down in sim/core are what the specification and the library's documentation say",
    "threads switch at transfers, extension calls and operation boundaries; data races between them are excluded by safe Rust",
    "inputs of the recorded findings (known_findings.txt) are kept out of the generated ones",
    "descriptions are of bounded size and nesting (up to some 120 levels)",
];
