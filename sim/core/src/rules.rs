//! The rules a description has to obey, written down from the specification and the builder's
//! documentation, and ways to break them.

use crate::{
    gen::{ops_of, sec_name, G, THING_OPS},
    gram::{lang_verdict, BAD_LANGS, N, OPS},
    j::{s, J},
    tape::Tape,
    Call,
};

/// What a walk over contributions meets.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct At {
    pub n: N,
    /// For forms: the kind of element they are in (`Thing` for the Thing itself).
    pub of: N,
    /// For data schemas: the schema itself is a URI variable.
    pub uri: bool,
    pub depth: u32,
}

type Visit<'v> = dyn FnMut(At, &mut J) + 'v;

fn at(n: N, of: N, depth: u32) -> At {
    At {
        n,
        of,
        uri: false,
        depth,
    }
}

/// Visits every element a contribution consists of.
pub fn walk_call(c: &mut Call, f: &mut Visit) {
    match c.k.as_str() {
        "properties" => walk(at(N::Prop, N::Prop, 0), &mut c.v, f),
        "actions" => walk(at(N::Action, N::Action, 0), &mut c.v, f),
        "events" => walk(at(N::Event, N::Event, 0), &mut c.v, f),
        "forms" => walk(at(N::Form, N::Thing, 0), &mut c.v, f),
        "links" => walk(at(N::Link, N::Thing, 0), &mut c.v, f),
        "uriVariables" => walk(
            At {
                uri: true,
                ..at(N::Ds, N::Thing, 0)
            },
            &mut c.v,
            f,
        ),
        "schemaDefinitions" => walk(at(N::Ds, N::Thing, 0), &mut c.v, f),
        "security" => {
            if let Some(d) = c.v.get_mut("def") {
                walk(at(N::Sec, N::Thing, 0), d, f)
            }
        }
        _ => {}
    }
}

fn walk(a: At, v: &mut J, f: &mut Visit) {
    f(a, v);
    let sub = |n: N| at(n, if a.of == N::Thing { n } else { a.of }, a.depth + 1);
    let ds = At {
        uri: false,
        ..sub(N::Ds)
    };
    if matches!(a.n, N::Prop | N::Action | N::Event) {
        if let Some(J::Arr(x)) = v.get_mut("forms") {
            x.iter_mut().for_each(|x| walk(at(N::Form, a.n, 1), x, f));
        }
        if let Some(J::Obj(m)) = v.get_mut("uriVariables") {
            m.iter_mut().for_each(|(_, x)| walk(At { uri: true, ..ds }, x, f));
        }
        for k in ["input", "output", "subscription", "data", "data_response", "cancellation"] {
            if let Some(x) = v.get_mut(k) {
                walk(ds, x, f);
            }
        }
    }
    if matches!(a.n, N::Ds | N::Prop) {
        if let Some(J::Arr(x)) = v.get_mut("oneOf") {
            x.iter_mut().for_each(|x| walk(ds, x, f));
        }
        match v.get_mut("items") {
            Some(J::Arr(x)) => x.iter_mut().for_each(|x| walk(ds, x, f)),
            Some(x) => walk(ds, x, f),
            None => {}
        }
        if let Some(J::Obj(m)) = v.get_mut("properties") {
            m.iter_mut().for_each(|(_, x)| walk(ds, x, f));
        }
    }
}

pub fn walk_all(calls: &mut [Call], f: &mut Visit) {
    for c in calls {
        walk_call(c, f);
    }
}

fn num(o: &J, k: &str) -> Option<f64> {
    o.get(k).map(|x| x.f64())
}

fn bound(o: &J, k: &str, x: &str) -> Option<(J, bool)> {
    o.get(k).map(|v| (v.clone(), false)).or_else(|| o.get(x).map(|v| (v.clone(), true)))
}

fn langs(v: &J, out: &mut Vec<String>) {
    for k in ["titles", "descriptions"] {
        if let Some(m) = v.get(k) {
            for (l, _) in m.members() {
                if lang_verdict(l) == Some(false) {
                    out.push(format!("InvalidLanguageTag {l}"));
                }
            }
        }
    }
}

/// Every rule the contributions break, as the refusals that may be given for it. Empty: they
/// have to be accepted.
pub fn broken(calls: &[Call]) -> Vec<String> {
    let mut out = Vec::new();
    let mut secs: Vec<String> = Vec::new();
    let mut live: Vec<Call> = Vec::new();
    for c in calls {
        match c.k.as_str() {
            "security" => {
                let n = sec_name(&c.v);
                if secs.contains(&n) {
                    out.push(format!("DuplicatedSecurityDefinition {n}"));
                }
                secs.push(n);
            }
            "properties" | "actions" | "events"
                if live.iter().any(|l| l.k == c.k && l.name == c.name) =>
            {
                out.push(format!("DuplicatedAffordance {} {}", c.k, c.name));
            }
            // These replace what was given before.
            "uriVariables" | "schemaDefinitions" => {
                live.retain(|l| l.k != c.k || l.name != c.name)
            }
            "titles" | "descriptions" => live.retain(|l| l.k != c.k),
            _ => {}
        }
        live.push(c.clone());
    }
    let schemas: Vec<String> = live
        .iter()
        .filter(|c| c.k == "schemaDefinitions")
        .map(|c| c.name.clone())
        .collect();
    for c in &mut live {
        if matches!(c.k.as_str(), "titles" | "descriptions") {
            langs(&J::Obj(vec![(c.k.clone(), c.v.clone())]), &mut out);
        }
        walk_call(c, &mut |a, v| check(a, v, &secs, &schemas, &mut out));
    }
    out
}

fn check(a: At, v: &J, secs: &[String], schemas: &[String], out: &mut Vec<String>) {
    match a.n {
        N::Sec => {
            langs(v, out);
            if v.get("scheme").and_then(|x| x.str()) == Some("combo") {
                for k in ["oneOf", "allOf"] {
                    for x in v.get(k).map(|x| x.arr()).unwrap_or(&[]) {
                        let x = x.str().unwrap_or("");
                        if !secs.iter().any(|n| n == x) {
                            out.push(format!("MissingSchemaDefinition {x}"));
                            out.push(format!("UndefinedSecurity {x}"));
                        }
                    }
                }
            }
        }
        N::Link => {
            if v.get("sizes").is_some() && v.get("rel").and_then(|x| x.str()) != Some("icon") {
                out.push("SizesWithRelNotIcon".into());
            }
            for l in v.get("hreflang").map(|x| x.arr()).unwrap_or(&[]) {
                let l = l.str().unwrap_or("");
                if lang_verdict(l) == Some(false) {
                    out.push(format!("InvalidLanguageTag {l}"));
                }
            }
        }
        N::Form => {
            for x in v.get("security").map(|x| x.arr()).unwrap_or(&[]) {
                let x = x.str().unwrap_or("");
                if !secs.iter().any(|n| n == x) {
                    out.push(format!("UndefinedSecurity {x}"));
                }
            }
            match v.get("op") {
                None if a.of == N::Thing => out.push("MissingOpInForm".into()),
                Some(ops) => {
                    for o in ops.arr() {
                        let o = o.str().unwrap_or("");
                        if !ops_of(a.of).contains(&o) {
                            out.push(format!("InvalidOpInForm {:?} {o}", a.of));
                        }
                    }
                }
                None => {}
            }
            for r in v.get("additionalResponses").map(|x| x.arr()).unwrap_or(&[]) {
                if let Some(x) = r.get("schema").and_then(|x| x.str()) {
                    if !schemas.iter().any(|n| n == x) {
                        out.push(format!("MissingSchemaDefinition {x}"));
                    }
                }
            }
        }
        N::Prop | N::Action | N::Event | N::Ds => {
            langs(v, out);
            if matches!(a.n, N::Prop | N::Ds) {
                schema(a, v, out);
            }
        }
        _ => {}
    }
}

fn schema(a: At, v: &J, out: &mut Vec<String>) {
    // A schema with a constant, values or alternatives has no type in the builder.
    let ty = v.get("type").and_then(|x| x.str()).unwrap_or("");
    if a.uri && matches!(ty, "object" | "array") {
        out.push("InvalidUriVariables".into());
    }
    match ty {
        "array" | "string" => {
            let (lo, hi) = match ty {
                "array" => ("minItems", "maxItems"),
                _ => ("minLength", "maxLength"),
            };
            if let (Some(lo), Some(hi)) = (num(v, lo), num(v, hi)) {
                if lo > hi {
                    out.push("InvalidMinMax".into());
                }
            }
        }
        "number" | "integer" => {
            let lo = bound(v, "minimum", "exclusiveMinimum");
            let hi = bound(v, "maximum", "exclusiveMaximum");
            let nan = |b: &Option<(J, bool)>| b.as_ref().is_some_and(|(x, _)| x.f64().is_nan());
            if nan(&lo) || nan(&hi) {
                out.push("NanMinMax".into());
            } else if let (Some((l, xl)), Some((h, xh))) = (&lo, &hi) {
                let ord = if ty == "integer" {
                    l.int().cmp(&h.int())
                } else {
                    l.f64().partial_cmp(&h.f64()).unwrap_or(std::cmp::Ordering::Equal)
                };
                let open = xl != xh;
                if ord.is_gt() || (open && ord.is_eq()) {
                    out.push("InvalidMinMax".into());
                }
            }
            if let Some(m) = num(v, "multipleOf") {
                if m.is_nan() || m <= 0.0 {
                    out.push("InvalidMultipleOf".into());
                }
            }
        }
        _ => {}
    }
}

pub const WAYS: &[&str] = &[
    "bounds",
    "open-bounds",
    "nan",
    "multiple",
    "items",
    "lengths",
    "op",
    "no-op",
    "security",
    "schema",
    "duplicate",
    "duplicate-security",
    "combo",
    "lang",
    "hreflang",
    "sizes",
    "uri",
];

/// A place for the given breakage, should the contributions have none.
fn make_site(way: &str, g: &mut G, calls: &mut Vec<Call>) {
    let fresh = format!("site{}", g.uniq());
    let typed = match way {
        "bounds" | "open-bounds" | "multiple" => Some(if g.t.chance(1, 2) { "number" } else { "integer" }),
        "nan" => Some("number"),
        "items" => Some("array"),
        "lengths" => Some("string"),
        _ => None,
    };
    if let Some(ty) = typed {
        let mut d = J::Obj(vec![("type".into(), s(ty))]);
        let deep = g.t.draw(4);
        let mut list = false;
        for _ in 0..deep {
            d = match g.t.draw(4) {
                0 => J::Obj(vec![("oneOf".into(), J::Arr(vec![d]))]),
                1 => {
                    list = true;
                    J::Obj(vec![("type".into(), s("array")), ("items".into(), d)])
                }
                2 => {
                    list = true;
                    let other = J::Obj(vec![("type".into(), s("string"))]);
                    J::Obj(vec![
                        ("type".into(), s("array")),
                        ("items".into(), J::Arr(vec![other, d])),
                    ])
                }
                _ => {
                    list = true;
                    J::Obj(vec![
                        ("type".into(), s("object")),
                        ("properties".into(), J::Obj(vec![("inner".into(), d)])),
                    ])
                }
            };
        }
        let wrapped = list || deep > 0 || ty == "array";
        let mut aff = J::Obj(vec![("forms".into(), J::Arr(vec![]))]);
        let call = match g.t.draw(8) {
            // The builder of a property has no lengths.
            0 if ty != "string" || deep > 0 => {
                let mut p = d;
                p.set("forms", J::Arr(vec![]));
                Call::new("properties", &fresh, p)
            }
            1 => Call::new("schemaDefinitions", &fresh, d),
            n @ 2..=3 => {
                aff.set(if n == 2 { "input" } else { "output" }, d);
                Call::new("actions", &fresh, aff)
            }
            n @ 4..=7 if wrapped || n < 7 => {
                let k = ["subscription", "data", "data_response", "cancellation"][n as usize - 4];
                aff.set(k, d);
                Call::new("events", &fresh, aff)
            }
            _ => match g.t.draw(2) {
                0 => Call::new("uriVariables", &fresh, d),
                _ => {
                    aff.set("uriVariables", J::Obj(vec![("v".into(), d)]));
                    Call::new("actions", &fresh, aff)
                }
            },
        };
        calls.push(call);
        return;
    }
    let form = |op: &str| {
        J::Obj(vec![
            ("op".into(), J::Arr(vec![s(op)])),
            ("href".into(), s("h")),
        ])
    };
    match way {
        "op" | "security" | "schema" => {
            let (k, op) = [
                ("properties", "readproperty"),
                ("actions", "invokeaction"),
                ("events", "subscribeevent"),
                ("forms", "readallproperties"),
            ][g.t.draw(4) as usize];
            let v = if k == "forms" {
                form(op)
            } else {
                let mut v = J::Obj(vec![("forms".into(), J::Arr(vec![form(op)]))]);
                if k == "properties" {
                    v.set("type", s("null"));
                }
                v
            };
            calls.push(Call::new(k, if k == "forms" { "" } else { &fresh }, v));
        }
        "no-op" => calls.push(Call::new("forms", "", form("readallproperties"))),
        "duplicate" => {
            let k = *g.t.pick(&["properties", "actions", "events"]);
            let n = match k {
                "properties" => N::Prop,
                "actions" => N::Action,
                _ => N::Event,
            };
            let v = g.node(n, 1);
            calls.push(Call::new(k, &fresh, v));
        }
        "duplicate-security" | "combo" => {
            let d = J::Obj(vec![("scheme".into(), s("nosec"))]);
            let v = J::Obj(vec![("key".into(), s(fresh)), ("def".into(), d)]);
            calls.push(Call::new("security", "", v));
        }
        "hreflang" | "sizes" => {
            calls.push(Call::new("links", "", J::Obj(vec![("href".into(), s("h"))])))
        }
        "uri" => {
            let d = J::Obj(vec![("type".into(), s("string"))]);
            calls.push(Call::new("uriVariables", &fresh, d));
        }
        "lang" => {
            let k = *g.t.pick(&["titles", "descriptions"]);
            calls.push(Call::new(k, "", J::Obj(vec![("en".into(), s("x"))])));
        }
        _ => {}
    }
}

fn is_site(way: &str, a: At, v: &J) -> bool {
    let ty = v.get("type").and_then(|x| x.str()).unwrap_or("");
    let ds = matches!(a.n, N::Ds | N::Prop);
    match way {
        "bounds" | "open-bounds" | "multiple" => {
            ds && (ty == "number" || (ty == "integer" && way != "multiple"))
        }
        "nan" => ds && ty == "number",
        "items" => ds && ty == "array" && !matches!(v.get("items"), Some(J::Arr(_))),
        "lengths" => a.n == N::Ds && ty == "string",
        "op" | "security" | "schema" => a.n == N::Form,
        "no-op" => a.n == N::Form && a.of == N::Thing,
        "combo" => a.n == N::Sec,
        "lang" => matches!(a.n, N::Ds | N::Prop | N::Action | N::Event | N::Sec),
        "hreflang" | "sizes" => a.n == N::Link,
        "uri" => a.n == N::Ds && a.uri,
        _ => false,
    }
}

fn apply(way: &str, a: At, v: &mut J, g: &mut G) {
    let ty = v.get("type").and_then(|x| x.str()).unwrap_or("").to_string();
    let numj = |g: &mut G, ty: &str, n: i64| -> J {
        let _ = &g;
        if ty == "integer" {
            J::Int(n as i128)
        } else {
            J::Flt(n as f64 / 2.0)
        }
    };
    match way {
        "bounds" | "open-bounds" => {
            for k in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"] {
                v.remove(k);
            }
            let n = g.t.draw(200) as i64 - 100;
            let gap = if way == "bounds" { 1 + g.t.draw(3) as i64 } else { 0 };
            let (lo, hi) = if gap == 0 {
                *g.t.pick(&[("minimum", "exclusiveMaximum"), ("exclusiveMinimum", "maximum")])
            } else {
                *g.t.pick(&[
                    ("minimum", "maximum"),
                    ("exclusiveMinimum", "exclusiveMaximum"),
                    ("minimum", "exclusiveMaximum"),
                    ("exclusiveMinimum", "maximum"),
                ])
            };
            let (mut x, mut y) = (numj(g, &ty, n + gap), numj(g, &ty, n));
            if g.t.chance(1, 3) {
                // Where a comparison through another type, or of the wrong kind, goes wrong.
                (x, y) = if ty == "integer" {
                    let b = g.t.range(1, 62);
                    let p = 1i64 << b;
                    let (x, y) = *g.t.pick(&[
                        (i64::MAX, i64::MIN),
                        (i64::MAX, i64::MAX - 1),
                        (i64::MIN + 1, i64::MIN),
                        (0, -1),
                        (p, p - 1),
                        (p + 1, p),
                        (1 - p, -p),
                        (p, -p),
                    ]);
                    let y = if gap == 0 { x } else { y };
                    (J::Int(x as i128), J::Int(y as i128))
                } else {
                    let z = *g.t.pick(&[0.0, -0.0, 1e300, -1e300, 5e-324, 0.1, 9007199254740992.0]);
                    let (x, y) = if gap == 0 {
                        (z, if z == 0.0 && g.t.chance(1, 2) { -z } else { z })
                    } else {
                        *g.t.pick(&[
                            (f64::INFINITY, z),
                            (z, f64::NEG_INFINITY),
                            (f64::MAX, f64::MIN),
                            (f64::INFINITY, f64::NEG_INFINITY),
                            (5e-324, 0.0),
                            (5e-324, -0.0),
                            (0.0, -5e-324),
                            (1.0 + f64::EPSILON, 1.0),
                            (9007199254740994.0, 9007199254740992.0),
                        ])
                    };
                    (J::Flt(x), J::Flt(y))
                };
            }
            v.set(lo, x);
            v.set(hi, y);
        }
        "nan" => {
            let k = g.t.draw(5);
            for k in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"] {
                v.remove(k);
            }
            let k = ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"]
                [k as usize];
            v.set(k, J::Flt(f64::NAN));
            if g.t.chance(1, 2) {
                let other = match k {
                    "minimum" => "maximum",
                    "maximum" => "exclusiveMinimum",
                    "exclusiveMinimum" => "exclusiveMaximum",
                    _ => "minimum",
                };
                v.set(other, J::Flt(1.0));
            }
        }
        "multiple" => {
            let x = *g.t.pick(&[0.0, -1.0, -0.0, -0.5, f64::NAN]);
            v.set("multipleOf", J::Flt(x));
        }
        "items" | "lengths" => {
            let n = g.t.draw(5) as i128;
            let d = g.t.range(1, 3) as i128;
            let (lo, hi) = match way {
                "items" => ("minItems", "maxItems"),
                _ => ("minLength", "maxLength"),
            };
            v.set(hi, J::Int(n));
            v.set(lo, J::Int(n + d));
        }
        "op" => {
            let ok = ops_of(a.of);
            let bad: Vec<&str> = OPS.iter().copied().filter(|o| !ok.contains(o)).collect();
            let o = s(*g.t.pick(&bad));
            let mut ops = v.get("op").map(|x| x.arr().to_vec()).unwrap_or_default();
            let i = g.t.draw(ops.len() as u64 + 1) as usize;
            ops.insert(i, o);
            v.set("op", J::Arr(ops));
        }
        "no-op" => {
            v.remove("op");
        }
        "security" => {
            let mut x = v.get("security").map(|x| x.arr().to_vec()).unwrap_or_default();
            let name = if g.t.chance(1, 2) { "undefined".to_string() } else { String::new() };
            let i = g.t.draw(x.len() as u64 + 1) as usize;
            x.insert(i, s(name));
            v.set("security", J::Arr(x));
        }
        "schema" => {
            let mut x = v.get("additionalResponses").map(|x| x.arr().to_vec()).unwrap_or_default();
            let i = g.t.draw(x.len() as u64 + 1) as usize;
            let mut r = J::Obj(vec![("schema".into(), s("undefined"))]);
            if g.t.chance(1, 2) {
                r.set("contentType", s("c"));
            }
            x.insert(i, r);
            v.set("additionalResponses", J::Arr(x));
        }
        "combo" => {
            for k in ["oneOf", "allOf", "in", "name", "qop", "alg", "format", "authorization", "token",
                "refresh", "scopes", "flow", "identity"] {
                v.remove(k);
            }
            let custom: Vec<String> =
                v.members().iter().map(|(k, _)| k.clone()).filter(|k| k.starts_with('y')).collect();
            for k in custom {
                v.remove(&k);
            }
            v.set("scheme", s("combo"));
            let mut names: Vec<J> = g.secs.iter().take(2).map(|x| s(x.clone())).collect();
            let i = g.t.draw(names.len() as u64 + 1) as usize;
            names.insert(i, s("undefined"));
            v.set(if g.t.chance(1, 2) { "oneOf" } else { "allOf" }, J::Arr(names));
        }
        "lang" => {
            let k = if a.n != N::Sec && g.t.chance(1, 2) { "titles" } else { "descriptions" };
            bad_lang(v, k, g.t);
        }
        "hreflang" => {
            let mut x = v.get("hreflang").map(|x| x.arr().to_vec()).unwrap_or_default();
            let i = g.t.draw(x.len() as u64 + 1) as usize;
            x.insert(i, s(*g.t.pick(BAD_LANGS)));
            v.set("hreflang", J::Arr(x));
        }
        "sizes" => {
            v.set("sizes", s("16x16"));
            match g.t.draw(4) {
                0 => {
                    v.remove("rel");
                }
                1 => v.set("rel", s("Icon")),
                2 => v.set("rel", s("icon ")),
                _ => v.set("rel", s("")),
            }
        }
        "uri" => {
            for k in ["const", "enum", "oneOf", "readOnly", "writeOnly", "minimum", "maximum",
                "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength",
                "pattern", "contentEncoding", "contentMediaType"] {
                v.remove(k);
            }
            v.set("type", s(*g.t.pick(&["object", "array"])));
        }
        _ => {}
    }
}

fn bad_lang(v: &mut J, k: &str, t: &mut Tape) {
    let mut m = v.get(k).cloned().unwrap_or(J::obj());
    m.set(*t.pick(BAD_LANGS), s("x"));
    v.set(k, m);
}

/// Breaks one rule somewhere in the contributions; gives the way it was done.
pub fn break_one(g: &mut G, calls: &mut Vec<Call>) -> &'static str {
    let way = *g.t.pick(WAYS);
    let count = |calls: &mut Vec<Call>| {
        let mut n = 0u64;
        walk_all(calls, &mut |a, v| n += is_site(way, a, v) as u64);
        n
    };
    match way {
        "duplicate" => {
            let cand = |calls: &[Call]| -> Vec<usize> {
                (0..calls.len())
                    .filter(|i| matches!(calls[*i].k.as_str(), "properties" | "actions" | "events"))
                    .collect()
            };
            if cand(calls).is_empty() {
                make_site(way, g, calls);
            }
            let c = cand(calls);
            let i = *g.t.pick(&c);
            let mut d = calls[i].clone();
            if g.t.chance(1, 2) {
                let n = match d.k.as_str() {
                    "properties" => N::Prop,
                    "actions" => N::Action,
                    _ => N::Event,
                };
                d.v = g.node(n, 1);
            }
            let at = g.t.draw(calls.len() as u64 + 1) as usize;
            calls.insert(at, d);
        }
        "duplicate-security" => {
            if !calls.iter().any(|c| c.k == "security") {
                make_site(way, g, calls);
            }
            let c: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].k == "security").collect();
            let i = *g.t.pick(&c);
            let mut d = calls[i].clone();
            let name = sec_name(&d.v);
            if g.t.chance(1, 2) {
                d.v = J::Obj(vec![
                    ("key".into(), s(name)),
                    ("def".into(), J::Obj(vec![("scheme".into(), s("auto"))])),
                ]);
            }
            let at = g.t.draw(calls.len() as u64 + 1) as usize;
            calls.insert(at, d);
        }
        "lang" if g.t.chance(1, 4) => {
            let k = *g.t.pick(&["titles", "descriptions"]);
            calls.retain(|c| c.k != k);
            let mut o = J::obj();
            bad_lang(&mut o, k, g.t);
            let v = o.get(k).cloned().unwrap_or(J::obj());
            let at = g.t.draw(calls.len() as u64 + 1) as usize;
            calls.insert(at, Call::new(k, "", v));
        }
        _ => {
            let mut n = count(calls);
            if n == 0 || g.t.chance(1, 4) {
                make_site(way, g, calls);
                n = count(calls);
            }
            if n == 0 {
                return "none";
            }
            let pick = g.t.draw(n);
            let mut i = 0;
            let mut todo: Option<(At, J)> = None;
            walk_all(calls, &mut |a, v| {
                if is_site(way, a, v) {
                    if i == pick {
                        todo = Some((a, v.clone()));
                    }
                    i += 1;
                }
            });
            if let Some((a, mut v)) = todo {
                // A scheme that becomes a combination keeps the name it was defined under.
                let old = v.get("scheme").and_then(|x| x.str()).unwrap_or("").to_string();
                apply(way, a, &mut v, g);
                let mut i = 0;
                walk_all(calls, &mut |a, x| {
                    if is_site(way, a, x) {
                        if i == pick {
                            *x = v.clone();
                        }
                        i += 1;
                    }
                });
                if way == "combo" {
                    let mut k = 0;
                    for c in calls.iter_mut().filter(|c| c.k == "security") {
                        if k == pick && c.v.get("key").is_none() {
                            c.v.set("key", s(old.clone()));
                        }
                        k += 1;
                    }
                }
            }
        }
    }
    let _ = THING_OPS;
    way
}
