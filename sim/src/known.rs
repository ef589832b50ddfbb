//! The recorded findings: fixed histories on which the library is known to break a property. The
//! generators keep clear of exactly these inputs; here each is run once more, and reported as
//! known if (and only if) the committed list names it.

use serde_json::json;
use simcore::{
    gram::{self, Set},
    j::{self, J},
    Call,
};
use wot_td::{
    builder::{NumberDataSchemaBuilderLike, SpecializableDataSchema},
    Thing,
};

use crate::{
    any::{self, Src},
    drive::St,
    exts::{with_hook, HookAt},
    proc::Proc,
    runner::BROKEN,
};

pub struct Known {
    pub id: &'static str,
    pub prop: &'static str,
    /// What goes wrong, if it still does.
    shows: fn() -> Option<String>,
}

pub enum Verdict {
    /// It still shows and is listed.
    Listed(String),
    Gone,
    Unlisted(String),
}

const LIST: &[Known] = &[
    Known { id: "non-finite-bound-lost", prop: "C01", shows: non_finite_lost },
    Known { id: "bound-pair-lost", prop: "C02", shows: bound_pair },
    Known { id: "data-response-dropped", prop: "C02", shows: data_response_dropped },
    Known { id: "data-response-name", prop: "C03", shows: data_response_name },
    Known { id: "non-finite-bound-null", prop: "C03", shows: non_finite_null },
    Known { id: "custom-data-repeats", prop: "C03", shows: custom_repeats },
    Known { id: "custom-scheme-null", prop: "C06", shows: custom_null },
    Known { id: "nested-extension-error-dropped", prop: "C09", shows: nested_extension },
    Known { id: "nested-schema-error-dropped", prop: "C13", shows: nested_error },
    Known { id: "unknown-type-dropped", prop: "C13", shows: unknown_type },
    Known { id: "malformed-bound-dropped", prop: "C13", shows: malformed_bound },
    Known { id: "type-by-index", prop: "C13", shows: type_by_index },
    Known { id: "scheme-by-index", prop: "C13", shows: scheme_by_index },
    Known { id: "value-as-object", prop: "C13", shows: value_as_object },
    Known { id: "members-as-list", prop: "C13", shows: members_as_list },
    Known { id: "malformed-scheme-custom", prop: "C13", shows: malformed_scheme },
    Known { id: "repeated-scheme-member", prop: "C13", shows: repeated_scheme },
];

pub fn probes(prop: &str) -> Vec<&'static Known> {
    LIST.iter().filter(|k| k.prop == prop).collect()
}

fn listed(k: &Known) -> Option<String> {
    let home = std::env::var("WOTSIM_HOME").unwrap_or_else(|_| ".".into());
    let text = std::fs::read_to_string(format!("{home}/known_findings.txt")).ok()?;
    let start = format!("KNOWN-FINDING: property={} id={} ", k.prop, k.id);
    let rest = format!("KNOWN-FINDING: property={} ", k.prop);
    text.lines()
        .find(|l| l.starts_with(&start))
        .map(|l| l[rest.len()..].to_string())
}

pub fn run(k: &Known) -> Verdict {
    let p = Proc::spawn(1);
    match p.call(k.shows) {
        Ok(None) => Verdict::Gone,
        Ok(Some(w)) => match listed(k) {
            Some(t) => Verdict::Listed(t),
            None => Verdict::Unlisted(w),
        },
        Err(e) => Verdict::Unlisted(format!("{}: panic: {e}", k.id)),
    }
}

/// Replays a file that names one of these.
pub fn replay(file: &str) -> Option<i32> {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file).ok()?).ok()?;
    let id = v["finding"].as_str()?;
    let Some(k) = LIST.iter().find(|k| k.id == id) else { return Some(BROKEN) };
    let p = Proc::spawn(1);
    Some(match p.call(k.shows) {
        Ok(None) => {
            println!("held");
            0
        }
        r => {
            println!("{r:?}");
            println!("VIOLATION property={} replay={file}", k.prop);
            1
        }
    })
}

// ---------------------------------------------------------------- the histories

fn thing(more: &str) -> Vec<u8> {
    format!(
        r#"{{"@context":"https://www.w3.org/2022/wot/td/v1.1","title":"t","security":[],"securityDefinitions":{{}}{more}}}"#
    )
    .into_bytes()
}
fn with_schema(ds: &str) -> Vec<u8> {
    thing(&format!(r#","schemaDefinitions":{{"d":{ds}}}"#))
}
fn reads(b: &[u8]) -> Option<Thing> {
    serde_json::from_slice(b).ok()
}
/// The document is relayed; what of it comes out?
fn relayed(b: &[u8]) -> Option<J> {
    let t = reads(b)?;
    j::parse(&serde_json::to_vec(&t).ok()?).ok()
}
fn schema_of(d: &J) -> Option<&J> {
    d.get("schemaDefinitions")?.get("d")
}
/// Taken although the reference reader refuses it.
fn taken(b: &[u8], what: &str) -> Option<String> {
    let d = relayed(b)?;
    Some(format!("{what}: {} was read and is relayed as {}", String::from_utf8_lossy(b), d.text()))
}

fn non_finite() -> Option<J> {
    let t: Thing = Thing::builder("t")
        .finish_extend()
        .schema_definition("d", |b| b.finish_extend().number().maximum(f64::INFINITY))
        .build()
        .ok()?;
    j::parse(&serde_json::to_vec(&t).ok()?).ok()
}
fn non_finite_null() -> Option<String> {
    let d = non_finite()?;
    let m = schema_of(&d)?.get("maximum")?;
    matches!(m, J::Null).then(|| format!("an infinite maximum is published as null: {}", d.text()))
}
fn non_finite_lost() -> Option<String> {
    let d = relayed(non_finite()?.text().as_bytes())?;
    schema_of(&d)?.get("maximum").is_none().then(|| format!("an infinite maximum does not reach a consumer: {}", d.text()))
}
fn bound_pair() -> Option<String> {
    let b = with_schema(r#"{"type":"number","maximum":3.0,"exclusiveMaximum":2.0}"#);
    let d = relayed(&b)?;
    let s = schema_of(&d)?;
    (s.get("maximum").is_none() || s.get("exclusiveMaximum").is_none())
        .then(|| format!("of maximum and exclusiveMaximum one is lost: {}", d.text()))
}
fn data_response_dropped() -> Option<String> {
    let b = thing(r#","events":{"e":{"forms":[],"dataResponse":{"type":"null"}}}"#);
    let d = relayed(&b)?;
    let e = d.get("events")?.get("e")?;
    e.get("dataResponse").is_none().then(|| format!("dataResponse is lost by a relay: {}", d.text()))
}
fn data_response_name() -> Option<String> {
    let c = vec![Call::new(
        "events",
        "e",
        j::parse(br#"{"forms":[],"data_response":{"type":"null"}}"#).ok()?,
    )];
    let t = any::build(Set::Nil, "t", &J::obj(), &c, &mut St::new(0), &mut || {}).ok()?;
    let mut b = Vec::new();
    t.write(&mut b, false).ok()?;
    let d = j::parse(&b).ok()?;
    d.get("events")?
        .get("e")?
        .get("data_response")
        .map(|_| format!("the data response of an event is published as data_response: {}", d.text()))
}
fn custom_repeats() -> Option<String> {
    let t: Thing = Thing::builder("t")
        .finish_extend()
        .security(|b| b.custom("acme").with_key("k").description("a").data(json!({"description": "b"})))
        .build()
        .ok()?;
    let d = j::parse(&serde_json::to_vec(&t).ok()?).ok()?;
    let k = d.get("securityDefinitions")?.get("k")?;
    let n = k.members().iter().filter(|(m, _)| m == "description").count();
    (n > 1).then(|| format!("the data of a custom scheme repeats a member: {}", k.text()))
}
fn custom_null() -> Option<String> {
    let t: Thing = Thing::builder("t")
        .finish_extend()
        .security(|b| b.custom("acme").with_key("k"))
        .build()
        .ok()?;
    let b = serde_json::to_vec(&t).ok()?;
    let u = reads(&b)?;
    (u != t).then(|| format!("a custom scheme without data does not equal the one read back: {}", String::from_utf8_lossy(&b)))
}
fn nested_extension() -> Option<String> {
    let b = with_schema(r#"{"type":"array","items":{"a:dsH":"x"}}"#);
    let t = with_hook(Box::new(|k, _| k != HookAt::De), || any::parse(Set::E1, Src::Slice(&b)).ok())?;
    Some(format!("an extension failed in a nested schema and a Thing was made: {}", t.observe().text()))
}
fn nested_error() -> Option<String> {
    taken(&with_schema(r#"{"type":"array","items":{"title":5}}"#), "a malformed nested schema")
}
fn unknown_type() -> Option<String> {
    taken(&with_schema(r#"{"type":"strnig"}"#), "an unknown type")
}
fn malformed_bound() -> Option<String> {
    taken(&with_schema(r#"{"type":"integer","minimum":1.5}"#), "a fractional bound of an integer")
}
fn type_by_index() -> Option<String> {
    taken(&with_schema(r#"{"type":0}"#), "a number as type")
}
fn scheme_by_index() -> Option<String> {
    taken(
        br#"{"title":"t","security":[],"securityDefinitions":{"s":{"scheme":0}}}"#,
        "a number as scheme",
    )
}
fn value_as_object() -> Option<String> {
    taken(&thing(r#","forms":[{"href":"x","op":{"readallproperties":null}}]"#), "an object as operation")
}
fn members_as_list() -> Option<String> {
    taken(&thing(r#","version":["1","2"]"#), "a list as version")
}
fn malformed_scheme() -> Option<String> {
    taken(
        br#"{"title":"t","security":[],"securityDefinitions":{"s":{"scheme":"basic","in":7}}}"#,
        "a malformed basic scheme",
    )
}
fn repeated_scheme() -> Option<String> {
    let b = br#"{"title":"t","security":[],"securityDefinitions":{"s":{"scheme":"basic","name":"a","name":"a"}}}"#;
    let t = reads(b)?;
    let u = reads(&serde_json::to_vec(&t).ok()?)?;
    (t != u).then(|| "a scheme with a repeated member does not equal what it is relayed as".to_string())
}

#[allow(dead_code)]
fn unused() {
    let _ = (json!(null), gram::TD11);
}
