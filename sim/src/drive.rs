//! Drives the real builder: a node is handed builder calls, one after the other, and turns them
//! into a `Thing`. In which state of the builder a call is made (before, between or after the
//! extensions are added, before or after a data schema gets its type) is a choice of the run.

use std::num::NonZeroU64;

use time::{OffsetDateTime, UtcOffset};
use wot_td::{
    builder::{
        ActionAffordanceBuilder, BuildableDataSchema, BuildableHumanReadableInfo,
        BuildableInteractionAffordance, BuildableSecuritySchemeSubtype, DataSchemaBuilder,
        EnumerableDataSchema, EventAffordanceBuilder, Extended, FormBuilder,
        IntegerDataSchemaBuilderLike, IntoUsable, MultiLanguageBuilder,
        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
        PartialDataSchemaBuilder, PropertyAffordanceBuilder, ReadableWriteableDataSchema,
        SecuritySchemeBuilder, SpecializableDataSchema, StringDataSchemaBuilderLike, ThingBuilder,
        ToExtend, TupleDataSchemaBuilderLike, UncheckedDataSchema, UnionDataSchema,
        VecDataSchemaBuilderLike,
    },
    extend::{Extendable, ExtendableThing},
    protocol::{coap::CoapProtocol, http::HttpProtocol, mqtt::MqttProtocol},
    hlist::Nil,
    thing::{
        FormOperation, QualityOfProtection, SecurityAuthenticationLocation, VersionInfo,
    },
    Thing,
};

use simcore::j::{s, J};
use simcore::tape::Rng;
use crate::{
    exts::*,
    observe::Obs,
};

pub use simcore::Call;

/// How the calls are laid out over the builder's states.
pub struct St {
    pub rng: Rng,
    pub plain: bool,
}

impl St {
    pub fn new(seed: u64) -> Self {
        St {
            rng: Rng::new(seed),
            plain: seed == 0,
        }
    }
}

/// A number like the given one.
fn near(v: &J, st: &mut St) -> J {
    match v {
        J::Int(i) if st.rng.chance(2, 3) => J::Int(if *i > 1 { *i - 1 } else { *i + 1 }),
        J::Flt(f) if st.rng.chance(2, 3) => J::Flt(*f + 1.0),
        _ => J::Int(7),
    }
}

/// The calls still to be made on one builder.
struct Ops {
    q: Vec<Call>,
    pos: usize,
}

impl Ops {
    /// Calls of different kinds may be made in any order; those of one kind keep theirs.
    fn new(calls: Vec<Call>, st: &mut St) -> Self {
        if st.plain || calls.is_empty() {
            return Ops { q: calls, pos: 0 };
        }
        let mut calls = calls;
        let mut extra = Vec::new();
        for (i, c) in calls.iter().enumerate() {
            if st.rng.chance(1, 10) {
                let v = match (c.k.as_str(), &c.v) {
                    (
                        "title" | "description" | "unit" | "format" | "contentType"
                        | "contentCoding" | "subprotocol" | "pattern" | "contentEncoding"
                        | "contentMediaType" | "proxy" | "rel" | "type" | "anchor" | "sizes",
                        v,
                    ) => match st.rng.below(6) {
                        0 => v.clone(),
                        1 => s(""),
                        _ => s("superseded"),
                    },
                    ("titles" | "descriptions", _) => {
                        J::Obj(vec![("en-GB".into(), s("superseded"))])
                    }
                    ("observable" | "synchronous", J::Bool(b)) => J::Bool(!b),
                    ("minItems" | "maxItems" | "minLength" | "maxLength", v) => near(v, st),
                    ("default", _) => match st.rng.below(3) {
                        0 => J::Null,
                        _ => s("superseded"),
                    },
                    // A limit replaces the one of the other kind too.
                    (
                        "minimum" | "maximum" | "exclusiveMinimum" | "exclusiveMaximum"
                        | "multipleOf",
                        v,
                    ) => near(v, st),
                    ("response", v) => {
                        let mut v = v.clone();
                        if st.rng.chance(1, 2) {
                            v.set("contentType", s("superseded"));
                        }
                        if let J::Obj(m) = &mut v {
                            for (k, x) in m {
                                match x {
                                    J::Int(_) if st.rng.chance(1, 2) => *x = near(x, st),
                                    J::Arr(a) if k == "htv:headers" && st.rng.chance(1, 2) => {
                                        a.pop();
                                    }
                                    _ => {}
                                }
                            }
                        }
                        v
                    }
                    (
                        "uriVariables" | "optional" | "input" | "output" | "subscription" | "data"
                        | "data_response" | "cancellation",
                        v,
                    ) => {
                        let mut v = v.clone();
                        v.set("description", s("superseded"));
                        v
                    }
                    ("key", _) => {
                        extra.push((i, Call::new("key", "superseded", J::Null)));
                        continue;
                    }
                    _ => continue,
                };
                let k = match c.k.as_str() {
                    "minimum" if st.rng.chance(1, 2) => "exclusiveMinimum",
                    "exclusiveMinimum" if st.rng.chance(1, 2) => "minimum",
                    "maximum" if st.rng.chance(1, 2) => "exclusiveMaximum",
                    "exclusiveMaximum" if st.rng.chance(1, 2) => "maximum",
                    k => k,
                };
                extra.push((i, Call::new(k, &c.name, v)));
            }
        }
        for (i, c) in extra.into_iter().rev() {
            calls.insert(i, c);
        }
        let mut kinds: Vec<(String, Vec<Call>)> = Vec::new();
        for c in calls {
            let kind = match c.k.as_str() {
                "exclusiveMinimum" => "minimum",
                "exclusiveMaximum" => "maximum",
                k => k,
            };
            match kinds.iter_mut().find(|(k, _)| k == kind) {
                Some((_, v)) => v.push(c),
                None => kinds.push((kind.into(), vec![c])),
            }
        }
        for (_, v) in &mut kinds {
            v.reverse();
        }
        let mut q = Vec::new();
        while !kinds.is_empty() {
            let i = st.rng.below(kinds.len() as u64) as usize;
            if let Some(c) = kinds[i].1.pop() {
                q.push(c);
            }
            if kinds[i].1.is_empty() {
                kinds.swap_remove(i);
            }
        }
        Ops { q, pos: 0 }
    }
    fn some(&mut self, st: &mut St) -> Vec<Call> {
        if st.plain {
            return Vec::new();
        }
        let left = self.q.len() - self.pos;
        let n = st.rng.below(left as u64 + 1) as usize;
        let n = if st.rng.chance(1, 2) { n / 2 } else { n };
        self.pos += n;
        self.q[self.pos - n..self.pos].to_vec()
    }
    fn rest(&mut self) -> Vec<Call> {
        let r = self.q[self.pos..].to_vec();
        self.pos = self.q.len();
        r
    }
}

fn t(j: &J) -> String {
    j.str().unwrap_or_default().to_string()
}

pub fn op_from(n: &str) -> FormOperation {
    use FormOperation::*;
    match n {
        "readproperty" => ReadProperty,
        "writeproperty" => WriteProperty,
        "observeproperty" => ObserveProperty,
        "unobserveproperty" => UnobserveProperty,
        "invokeaction" => InvokeAction,
        "queryaction" => QueryAction,
        "cancelaction" => CancelAction,
        "subscribeevent" => SubscribeEvent,
        "unsubscribeevent" => UnsubscribeEvent,
        "readallproperties" => ReadAllProperties,
        "writeallproperties" => WriteAllProperties,
        "readmultipleproperties" => ReadMultipleProperties,
        "writemultipleproperties" => WriteMultipleProperties,
        "observeallproperties" => ObserveAllProperties,
        "unobserveallproperties" => UnobserveAllProperties,
        "subscribeallevents" => SubscribeAllEvents,
        "unsubscribeallevents" => UnsubscribeAllEvents,
        "queryallactions" => QueryAllActions,
        x => panic!("harness: no operation {x}"),
    }
}

pub fn date_from(v: &J) -> OffsetDateTime {
    let (n, o) = match v {
        J::Arr(a) => (a[0].int(), a[1].int() as i32),
        v => simcore::dates::instant(v.str().unwrap_or_default()),
    };
    OffsetDateTime::from_unix_timestamp_nanos(n)
        .expect("harness: instant out of range")
        .to_offset(UtcOffset::from_whole_seconds(o).expect("harness: offset out of range"))
}

// ---------------------------------------------------------------- extension sets

/// An extension list that can be attached piece by piece.
pub trait Es:
    Obs
    + ExtendableThing<
        InteractionAffordance: Extendable<Empty = Nil>,
        PropertyAffordance: Extendable<Empty = Nil>,
        ActionAffordance: Extendable<Empty = Nil>,
        EventAffordance: Extendable<Empty = Nil>,
        Form: Extendable<Empty = Nil>,
        ExpectedResponse: Extendable<Empty = Nil> + Default + PartialEq,
        DataSchema: Extendable<Empty = Nil>,
        ObjectSchema: Extendable<Empty = Nil> + Default + PartialEq,
        ArraySchema: Extendable<Empty = Nil> + Default + PartialEq,
    > + Default
    + 'static
{
    fn thing(b: ThingBuilder<Nil, ToExtend>, d: &J, pre: &mut Vec<Call>, st: &mut St)
        -> ThingBuilder<Self, ToExtend>;
    fn form<H>(b: FormBuilder<Self, H, Nil>, d: &J, x: &mut FormOps, st: &mut St)
        -> FormBuilder<Self, H, Self::Form>;
    fn resp(e: Nil, d: &J) -> Self::ExpectedResponse;
    fn arr(e: Nil, d: &J) -> Self::ArraySchema;
    fn obj(e: Nil, d: &J) -> Self::ObjectSchema;
    fn ds(
        b: DataSchemaBuilder<Nil, Self::ArraySchema, Self::ObjectSchema, ToExtend>,
        d: &J,
        x: &mut DsOps,
        st: &mut St,
    ) -> DataSchemaBuilder<Self::DataSchema, Self::ArraySchema, Self::ObjectSchema, ToExtend>;
    #[allow(clippy::type_complexity)]
    fn p_ds<I, P>(
        b: PropertyAffordanceBuilder<
            Self,
            PartialDataSchemaBuilder<Nil, Self::ArraySchema, Self::ObjectSchema, ToExtend>,
            I,
            P,
        >,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> PropertyAffordanceBuilder<
        Self,
        PartialDataSchemaBuilder<
            Self::DataSchema,
            Self::ArraySchema,
            Self::ObjectSchema,
            ToExtend,
        >,
        I,
        P,
    >;
    fn p_inter<D, P>(
        b: PropertyAffordanceBuilder<Self, D, Nil, P>,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> PropertyAffordanceBuilder<Self, D, Self::InteractionAffordance, P>;
    fn p_prop<D, I>(
        b: PropertyAffordanceBuilder<Self, D, I, Nil>,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> PropertyAffordanceBuilder<Self, D, I, Self::PropertyAffordance>;
    fn a_inter<X>(
        b: ActionAffordanceBuilder<Self, Nil, X>,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> ActionAffordanceBuilder<Self, Self::InteractionAffordance, X>;
    fn a_act<I>(
        b: ActionAffordanceBuilder<Self, I, Nil>,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> ActionAffordanceBuilder<Self, I, Self::ActionAffordance>;
    fn e_inter<X>(
        b: EventAffordanceBuilder<Self, Nil, X>,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> EventAffordanceBuilder<Self, Self::InteractionAffordance, X>;
    fn e_ev<I>(
        b: EventAffordanceBuilder<Self, I, Nil>,
        d: &J,
        x: &mut AffOps,
        st: &mut St,
    ) -> EventAffordanceBuilder<Self, I, Self::EventAffordance>;
}

macro_rules! es {
    ($t:ty, [$($leaf:ty),*]) => {
        #[allow(unused_variables, unused_mut)]
        impl Es for $t {
            fn thing(b: ThingBuilder<Nil, ToExtend>, d: &J, pre: &mut Vec<Call>, st: &mut St)
                -> ThingBuilder<Self, ToExtend> {
                let b = plain_some(b, pre, st);
                $(
                    let b = b.ext(<$leaf as Pc>::from_j(d));
                    let b = plain_some(b, pre, st);
                )*
                b
            }
            fn form<H>(b: FormBuilder<Self, H, Nil>, d: &J, x: &mut FormOps, st: &mut St)
                -> FormBuilder<Self, H, Self::Form> {
                $(
                    let c = x.0.some(st);
                    let b = form_calls(b, c, st);
                    let b = b.ext(<<$leaf as ExtendableThing>::Form as Pc>::from_j(d));
                )*
                b
            }
            fn resp(e: Nil, d: &J) -> Self::ExpectedResponse {
                #[allow(unused_imports)] use wot_td::extend::Extend;
                $( let e = e.ext(<<$leaf as ExtendableThing>::ExpectedResponse as Pc>::from_j(d)); )*
                e
            }
            fn arr(e: Nil, d: &J) -> Self::ArraySchema {
                #[allow(unused_imports)] use wot_td::extend::Extend;
                $( let e = e.ext(<<$leaf as ExtendableThing>::ArraySchema as Pc>::from_j(d)); )*
                e
            }
            fn obj(e: Nil, d: &J) -> Self::ObjectSchema {
                #[allow(unused_imports)] use wot_td::extend::Extend;
                $( let e = e.ext(<<$leaf as ExtendableThing>::ObjectSchema as Pc>::from_j(d)); )*
                e
            }
            fn ds(
                b: DataSchemaBuilder<Nil, Self::ArraySchema, Self::ObjectSchema, ToExtend>,
                d: &J,
                x: &mut DsOps,
                st: &mut St,
            ) -> DataSchemaBuilder<Self::DataSchema, Self::ArraySchema, Self::ObjectSchema, ToExtend> {
                $(
                    let c = x.0.some(st);
                    let b = ds_calls(b, c);
                    let b = b.ext(<<$leaf as ExtendableThing>::DataSchema as Pc>::from_j(d));
                )*
                b
            }
            fn p_ds<I, P>(
                b: PropertyAffordanceBuilder<
                    Self,
                    PartialDataSchemaBuilder<Nil, Self::ArraySchema, Self::ObjectSchema, ToExtend>,
                    I,
                    P,
                >,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> PropertyAffordanceBuilder<
                Self,
                PartialDataSchemaBuilder<
                    Self::DataSchema,
                    Self::ArraySchema,
                    Self::ObjectSchema,
                    ToExtend,
                >,
                I,
                P,
            > {
                $(
                    let c = x.0.some(st);
                    let b = prop_calls(b, c, st);
                    let b = b.ext_data_schema(<<$leaf as ExtendableThing>::DataSchema as Pc>::from_j(d));
                )*
                b
            }
            fn p_inter<D, P>(
                b: PropertyAffordanceBuilder<Self, D, Nil, P>,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> PropertyAffordanceBuilder<Self, D, Self::InteractionAffordance, P> {
                $(
                    let c = x.0.some(st);
                    let b = prop_calls(b, c, st);
                    let b = b.ext_interaction(<<$leaf as ExtendableThing>::InteractionAffordance as Pc>::from_j(d));
                )*
                b
            }
            fn p_prop<D, I>(
                b: PropertyAffordanceBuilder<Self, D, I, Nil>,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> PropertyAffordanceBuilder<Self, D, I, Self::PropertyAffordance> {
                $(
                    let c = x.0.some(st);
                    let b = prop_calls(b, c, st);
                    let b = b.ext(<<$leaf as ExtendableThing>::PropertyAffordance as Pc>::from_j(d));
                )*
                b
            }
            fn a_inter<X>(
                b: ActionAffordanceBuilder<Self, Nil, X>,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> ActionAffordanceBuilder<Self, Self::InteractionAffordance, X> {
                $(
                    let c = x.0.some(st);
                    let b = act_calls(b, c, st);
                    let b = b.ext_interaction(<<$leaf as ExtendableThing>::InteractionAffordance as Pc>::from_j(d));
                )*
                b
            }
            fn a_act<I>(
                b: ActionAffordanceBuilder<Self, I, Nil>,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> ActionAffordanceBuilder<Self, I, Self::ActionAffordance> {
                $(
                    let c = x.0.some(st);
                    let b = act_calls(b, c, st);
                    let b = b.ext(<<$leaf as ExtendableThing>::ActionAffordance as Pc>::from_j(d));
                )*
                b
            }
            fn e_inter<X>(
                b: EventAffordanceBuilder<Self, Nil, X>,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> EventAffordanceBuilder<Self, Self::InteractionAffordance, X> {
                $(
                    let c = x.0.some(st);
                    let b = ev_calls(b, c, st);
                    let b = b.ext_interaction(<<$leaf as ExtendableThing>::InteractionAffordance as Pc>::from_j(d));
                )*
                b
            }
            fn e_ev<I>(
                b: EventAffordanceBuilder<Self, I, Nil>,
                d: &J,
                x: &mut AffOps,
                st: &mut St,
            ) -> EventAffordanceBuilder<Self, I, Self::EventAffordance> {
                $(
                    let c = x.0.some(st);
                    let b = ev_calls(b, c, st);
                    let b = b.ext(<<$leaf as ExtendableThing>::EventAffordance as Pc>::from_j(d));
                )*
                b
            }
        }
    };
}
es!(Nil, []);
es!(E1, [A]);
es!(E2, [A, B]);
es!(Http, [HttpProtocol]);
es!(Coap, [CoapProtocol]);
es!(Mqtt, [MqttProtocol]);
es!(EP, [HttpProtocol, CoapProtocol, MqttProtocol]);

pub struct FormOps(Ops);
pub struct DsOps(Ops);
/// Calls on an affordance, and those on its data schema (properties only).
pub struct AffOps(Ops, Ops);

// ---------------------------------------------------------------- human readable members

fn ml<'a>(
    v: &J,
) -> impl FnOnce(&'a mut MultiLanguageBuilder<String>) -> &'a mut MultiLanguageBuilder<String> {
    let m: Vec<(String, String)> = v.members().iter().map(|(k, v)| (k.clone(), t(v))).collect();
    move |b| {
        for (i, (k, v)) in m.into_iter().enumerate() {
            // The last value of a language counts.
            if (v.len() + i) % 5 == 0 {
                // In whatever case, if it is certain to be one.
                let sure = (2..4).contains(&k.len()) && k.chars().all(|c| c.is_ascii_alphabetic());
                b.add(if sure { k.to_uppercase() } else { k.clone() }, "superseded");
            }
            b.add(k, v);
        }
        b
    }
}

fn hr<B: BuildableHumanReadableInfo>(b: B, c: &Call) -> Result<B, B> {
    Ok(match c.k.as_str() {
        "@type" => b.attype(t(&c.v)),
        "title" => b.title(t(&c.v)),
        "titles" => {
            let v = c.v.clone();
            b.titles(move |m| ml(&v)(m))
        }
        "description" => b.description(t(&c.v)),
        "descriptions" => {
            let v = c.v.clone();
            b.descriptions(move |m| ml(&v)(m))
        }
        _ => return Err(b),
    })
}

fn hr_calls_of(d: &J, out: &mut Vec<Call>) {
    many(d, "@type", out);
    for k in ["title", "titles", "description", "descriptions"] {
        one(d, k, out);
    }
}
fn one(d: &J, k: &str, out: &mut Vec<Call>) {
    if let Some(v) = d.get(k) {
        out.push(Call::new(k, "", v.clone()));
    }
}
fn many(d: &J, k: &str, out: &mut Vec<Call>) {
    if let Some(v) = d.get(k) {
        for x in v.arr() {
            out.push(Call::new(k, "", x.clone()));
        }
    }
}
fn map_calls(d: &J, k: &str, out: &mut Vec<Call>) {
    if let Some(v) = d.get(k) {
        for (n, x) in v.members() {
            out.push(Call::new(k, n, x.clone()));
        }
    }
}

// ---------------------------------------------------------------- data schemas

fn ds_calls_of(d: &J, out: &mut Vec<Call>) {
    for k in ["default", "unit", "format"] {
        one(d, k, out);
    }
}

fn ds_call<DS, AS, OS, T, B: BuildableDataSchema<DS, AS, OS, T>>(b: B, c: &Call) -> B {
    match c.k.as_str() {
        "default" => b.default_value(c.v.to_value()),
        "unit" => b.unit(t(&c.v)),
        "format" => b.format(t(&c.v)),
        k => panic!("harness: no data schema call {k}"),
    }
}
fn ds_calls<DS, AS, OS, T, B>(mut b: B, calls: Vec<Call>) -> B
where
    B: BuildableDataSchema<DS, AS, OS, T> + BuildableHumanReadableInfo,
{
    for c in &calls {
        b = match hr(b, c) {
            Ok(b) => b,
            Err(b) => ds_call(b, c),
        };
    }
    b
}

fn num_call<DS, AS, OS, B: NumberDataSchemaBuilderLike<DS, AS, OS>>(b: B, c: &Call) -> B {
    let x = c.v.f64();
    match c.k.as_str() {
        "minimum" => b.minimum(x),
        "maximum" => b.maximum(x),
        "exclusiveMinimum" => b.exclusive_minimum(x),
        "exclusiveMaximum" => b.exclusive_maximum(x),
        "multipleOf" => b.multiple_of(x),
        k => panic!("harness: no number call {k}"),
    }
}
fn int_call<DS, AS, OS, B: IntegerDataSchemaBuilderLike<DS, AS, OS>>(b: B, c: &Call) -> B {
    let x = c.v.int() as i64;
    match c.k.as_str() {
        "minimum" => b.minimum(x),
        "maximum" => b.maximum(x),
        "exclusiveMinimum" => b.exclusive_minimum(x),
        "exclusiveMaximum" => b.exclusive_maximum(x),
        "multipleOf" => b.multiple_of(NonZeroU64::new(c.v.int() as u64).expect("harness: zero")),
        k => panic!("harness: no integer call {k}"),
    }
}
fn str_call<DS, AS, OS, B: StringDataSchemaBuilderLike<DS, AS, OS>>(b: B, c: &Call) -> B {
    match c.k.as_str() {
        "minLength" => b.min_length(c.v.int() as u32),
        "maxLength" => b.max_length(c.v.int() as u32),
        "pattern" => b.pattern(t(&c.v)),
        "contentEncoding" => b.content_encoding(t(&c.v)),
        "contentMediaType" => b.content_media_type(t(&c.v)),
        k => panic!("harness: no string call {k}"),
    }
}
macro_rules! sub_ds {
    ($S:ty, $v:expr, $st:expr) => {
        |b| data_schema::<$S>(b, &$v, $st)
    };
}
fn vec_call<S: Es, B>(b: B, c: &Call, st: &mut St) -> B
where
    B: VecDataSchemaBuilderLike<S::DataSchema, S::ArraySchema, S::ObjectSchema>,
{
    match c.k.as_str() {
        "minItems" => b.min_items(c.v.int() as u32),
        "maxItems" => b.max_items(c.v.int() as u32),
        "items" => b.set_item(sub_ds!(S, c.v, st)),
        k => panic!("harness: no vec call {k}"),
    }
}
fn tup_call<S: Es, B>(b: B, c: &Call, st: &mut St) -> B
where
    B: TupleDataSchemaBuilderLike<S::DataSchema, S::ArraySchema, S::ObjectSchema>,
{
    b.append(sub_ds!(S, c.v, st))
}
fn obj_call<S: Es, B>(b: B, c: &Call, st: &mut St) -> B
where
    B: ObjectDataSchemaBuilderLike<S::DataSchema, S::ArraySchema, S::ObjectSchema>,
{
    b.property(c.name.clone(), c.k == "required", sub_ds!(S, c.v, st))
}

fn obj_calls_of(d: &J, st: &mut St) -> Vec<Call> {
    let empty = J::obj();
    let props = d.get("properties").unwrap_or(&empty);
    let mut out = Vec::new();
    let req: Vec<String> = d
        .get("required")
        .map(|r| r.arr().iter().map(t).collect())
        .unwrap_or_default();
    for (i, r) in req.iter().enumerate() {
        if let Some(p) = props.get(r) {
            // What a property is declared as last is what it is.
            let mut v = p.clone();
            if req[i + 1..].contains(r) {
                v.set("description", s("declared before"));
            }
            out.push(Call::new("required", r, v));
        }
    }
    for (k, v) in props.members() {
        if !req.contains(k) {
            let at = if st.plain {
                out.len()
            } else {
                st.rng.below(out.len() as u64 + 1) as usize
            };
            out.insert(at, Call::new("optional", k, v.clone()));
            if !st.plain && st.rng.chance(1, 8) {
                let mut v = v.clone();
                v.set("description", s("declared before"));
                let at = st.rng.below(at as u64 + 1) as usize;
                out.insert(at, Call::new("optional", k, v));
            }
        }
    }
    out
}

/// Splits the calls for a typed schema between before and after the read/write-only wrapper.
macro_rules! typed {
    ($b:ident, $calls:expr, $ops:ident, $st:ident, $d:ident, |$x:ident, $c:ident| $call:expr,
     $more:ident, |$r:ident| $fin:expr) => {{
        let calls: Vec<Call> = $calls;
        let ro = $d.get("readOnly").is_some_and(|x| x.bool());
        let wo = $d.get("writeOnly").is_some_and(|x| x.bool());
        let cut = if $st.plain { calls.len() } else { $st.rng.below(calls.len() as u64 + 1) as usize };
        let mut $x = $b;
        for $c in &calls[..cut] { $x = $call; }
        let c = $ops.some($st);
        let mut $x = $more($x, c, $st);
        if ro {
            let mut $x = $x.read_only();
            for $c in &calls[cut..] { $x = $call; }
            let $r = $more($x, $ops.rest(), $st);
            $fin
        } else if wo {
            let mut $x = $x.write_only();
            for $c in &calls[cut..] { $x = $call; }
            let $r = $more($x, $ops.rest(), $st);
            $fin
        } else {
            for $c in &calls[cut..] { $x = $call; }
            let $r = $more($x, $ops.rest(), $st);
            $fin
        }
    }};
}

/// Gives a data schema (or a property) its type and finishes it.
macro_rules! specialize {
    ($S:ty, $b:ident, $d:ident, $ops:ident, $st:ident, $more:ident, $str:ident, |$r:ident| $fin:expr) => {{
        let empty = |_: &J| Vec::<Call>::new();
        let keys = |ks: &[&str]| {
            let mut v = Vec::new();
            for k in ks { one($d, k, &mut v); }
            v
        };
        const BOUNDS: &[&str] = &["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"];
        if let Some(c) = $d.get("const") {
            let b = $b.constant(c.to_value());
            let $r = $more(b, $ops.rest(), $st);
            $fin
        } else if let Some(e) = $d.get("enum") {
            let vals = e.arr();
            let b = $b.enumeration(vals[0].to_value());
            let calls: Vec<Call> = vals[1..].iter().map(|v| Call::new("enum", "", v.clone())).collect();
            typed!(b, calls, $ops, $st, $d, |x, c| x.enumeration(c.v.to_value()), $more, |$r| $fin)
        } else if let Some(o) = $d.get("oneOf") {
            let vals = o.arr();
            let mut b = $b.one_of(sub_ds!($S, vals[0], $st));
            for v in &vals[1..] { b = b.one_of(sub_ds!($S, v, $st)); }
            let $r = $more(b, $ops.rest(), $st);
            $fin
        } else {
            match $d.get("type").and_then(|x| x.str()).unwrap_or("") {
                "null" => { let b = $b.null(); typed!(b, empty($d), $ops, $st, $d, |x, _c| x, $more, |$r| $fin) }
                "boolean" => { let b = $b.bool(); typed!(b, empty($d), $ops, $st, $d, |x, _c| x, $more, |$r| $fin) }
                "number" => {
                    let b = $b.number();
                    let calls = Ops::new(keys(BOUNDS), $st).rest();
                    typed!(b, calls, $ops, $st, $d, |x, c| num_call(x, c), $more, |$r| $fin)
                }
                "integer" => {
                    let b = $b.integer();
                    let calls = Ops::new(keys(BOUNDS), $st).rest();
                    typed!(b, calls, $ops, $st, $d, |x, c| int_call(x, c), $more, |$r| $fin)
                }
                "string" => {
                    let b = $b.string();
                    let b = $str(b, $d, $st);
                    typed!(b, empty($d), $ops, $st, $d, |x, _c| x, $more, |$r| $fin)
                }
                "object" => {
                    let e = <$S as Es>::obj(Nil, $d);
                        let b = if e == Default::default() && !$st.plain && $st.rng.chance(1, 2) {
                            $b.object()
                        } else {
                            $b.object_ext(|_| e)
                        };
                    let calls = obj_calls_of($d, $st);
                    typed!(b, calls, $ops, $st, $d, |x, c| obj_call::<$S, _>(x, c, $st), $more, |$r| $fin)
                }
                "array" => match $d.get("items") {
                    Some(J::Arr(items)) => {
                        let e = <$S as Es>::arr(Nil, $d);
                        let b = if e == Default::default() && !$st.plain && $st.rng.chance(1, 2) {
                            $b.tuple()
                        } else {
                            $b.tuple_ext(|_| e)
                        };
                        let calls: Vec<Call> = items.iter().map(|v| Call::new("items", "", v.clone())).collect();
                        typed!(b, calls, $ops, $st, $d, |x, c| tup_call::<$S, _>(x, c, $st), $more, |$r| $fin)
                    }
                    _ => {
                        let e = <$S as Es>::arr(Nil, $d);
                        let b = if e == Default::default() && !$st.plain && $st.rng.chance(1, 2) {
                            $b.vec()
                        } else {
                            $b.vec_ext(|_| e)
                        };
                        let calls = Ops::new(keys(&["items", "minItems", "maxItems"]), $st).rest();
                        typed!(b, calls, $ops, $st, $d, |x, c| vec_call::<$S, _>(x, c, $st), $more, |$r| $fin)
                    }
                },
                x => panic!("harness: the builder cannot make a data schema of type {x:?}"),
            }
        }
    }};
}

type Uds<S> = UncheckedDataSchema<
    <S as ExtendableThing>::DataSchema,
    <S as ExtendableThing>::ArraySchema,
    <S as ExtendableThing>::ObjectSchema,
>;

fn str_ds<DS, AS, OS, B: StringDataSchemaBuilderLike<DS, AS, OS>>(b: B, d: &J, st: &mut St) -> B {
    let mut v = Vec::new();
    for k in ["minLength", "maxLength", "pattern", "contentEncoding", "contentMediaType"] {
        one(d, k, &mut v);
    }
    let mut b = b;
    for c in Ops::new(v, st).rest() {
        b = str_call(b, &c);
    }
    b
}
/// The builder of a property has no way to constrain a string.
fn str_none<B>(b: B, _: &J, _: &mut St) -> B {
    b
}
fn more_ds<DS, AS, OS, B>(b: B, c: Vec<Call>, _: &mut St) -> B
where
    B: BuildableDataSchema<DS, AS, OS, Extended> + BuildableHumanReadableInfo,
{
    ds_calls(b, c)
}

fn data_schema<S: Es>(
    b: DataSchemaBuilder<Nil, S::ArraySchema, S::ObjectSchema, ToExtend>,
    d: &J,
    st: &mut St,
) -> Uds<S> {
    let mut calls = Vec::new();
    hr_calls_of(d, &mut calls);
    ds_calls_of(d, &mut calls);
    let mut x = DsOps(Ops::new(calls, st));
    let b = S::ds(b, d, &mut x, st);
    let b = b.finish_extend();
    let mut ops = x.0;
    let c = ops.some(st);
    let b = ds_calls(b, c);
    specialize!(S, b, d, ops, st, more_ds, str_ds, |r| r.into())
}

// ---------------------------------------------------------------- forms

fn form_calls_of(d: &J) -> Vec<Call> {
    let mut v = Vec::new();
    many(d, "op", &mut v);
    for k in ["contentType", "contentCoding", "subprotocol"] {
        one(d, k, &mut v);
    }
    many(d, "security", &mut v);
    many(d, "scopes", &mut v);
    one(d, "response", &mut v);
    many(d, "additionalResponses", &mut v);
    v
}

fn form_calls<S: Es, H, X>(
    mut b: FormBuilder<S, H, X>,
    calls: Vec<Call>,
    st: &mut St,
) -> FormBuilder<S, H, X> {
    for c in &calls {
        b = match c.k.as_str() {
            "op" => b.op(op_from(&t(&c.v))),
            "contentType" => b.content_type(t(&c.v)),
            "contentCoding" => b.content_coding(t(&c.v)),
            "subprotocol" => b.subprotocol(t(&c.v)),
            "security" => b.security(t(&c.v)),
            "scopes" => b.scope(t(&c.v)),
            "response" => {
                let ty = c.v.get("contentType").map(t).unwrap_or_default();
                if S::resp(Nil, &c.v) == Default::default() && !st.plain && st.rng.chance(1, 2) {
                    b.response_default_ext(ty)
                } else {
                    b.response(ty, |e| S::resp(e, &c.v))
                }
            }
            "additionalResponses" => {
                let mut steps = vec![0, 1, 2];
                if !st.plain {
                    steps.rotate_left(st.rng.below(3) as usize);
                }
                b.additional_response(|r| {
                    for x in steps {
                        match x {
                            0 if c.v.get("success").is_some_and(|x| x.bool()) => {
                                r.success();
                            }
                            1 => {
                                if let Some(v) = c.v.get("contentType") {
                                    r.content_type(t(v));
                                }
                            }
                            2 => {
                                if let Some(v) = c.v.get("schema") {
                                    r.schema(t(v));
                                }
                            }
                            _ => {}
                        }
                    }
                    r
                })
            }
            k => panic!("harness: no form call {k}"),
        };
    }
    b
}

fn form<S: Es>(
    b: FormBuilder<S, (), Nil>,
    d: &J,
    st: &mut St,
) -> FormBuilder<S, String, S::Form> {
    let mut x = FormOps(Ops::new(form_calls_of(d), st));
    let href = d.get("href").map(t).unwrap_or_default();
    let early = st.plain || st.rng.chance(1, 2);
    let c = x.0.some(st);
    let b = form_calls(b, c, st);
    let b = if early {
        let b = b.href(href);
        S::form(b, d, &mut x, st)
    } else {
        let b = S::form(b, d, &mut x, st);
        let c = x.0.some(st);
        form_calls(b, c, st).href(href)
    };
    form_calls(b, x.0.rest(), st)
}

// ---------------------------------------------------------------- affordances

fn aff_calls_of(d: &J) -> Vec<Call> {
    let mut v = Vec::new();
    hr_calls_of(d, &mut v);
    many(d, "forms", &mut v);
    map_calls(d, "uriVariables", &mut v);
    v
}

fn inter_call<S: Es, B>(b: B, c: &Call, st: &mut St) -> B
where
    B: BuildableInteractionAffordance<S>,
{
    match c.k.as_str() {
        "forms" => b.form(|b| form::<S>(b, &c.v, st)),
        "uriVariables" => b.uri_variable(c.name.clone(), sub_ds!(S, c.v, st)),
        k => panic!("harness: no affordance call {k}"),
    }
}

fn prop_calls<S: Es, D, I, P>(
    mut b: PropertyAffordanceBuilder<S, D, I, P>,
    calls: Vec<Call>,
    st: &mut St,
) -> PropertyAffordanceBuilder<S, D, I, P> {
    for c in &calls {
        b = match hr(b, c) {
            Ok(b) => b,
            Err(b) if c.k == "observable" => b.observable(c.v.bool()),
            Err(b) => inter_call::<S, _>(b, c, st),
        };
    }
    b
}

fn more_prop<S: Es, D, I, P>(
    mut b: PropertyAffordanceBuilder<S, D, I, P>,
    calls: Vec<Call>,
    st: &mut St,
) -> PropertyAffordanceBuilder<S, D, I, P>
where
    D: BuildableDataSchema<S::DataSchema, S::ArraySchema, S::ObjectSchema, Extended>,
{
    for c in calls {
        b = if matches!(c.k.as_str(), "default" | "unit" | "format") {
            ds_call::<S::DataSchema, S::ArraySchema, S::ObjectSchema, Extended, _>(b, &c)
        } else {
            prop_calls(b, vec![c], st)
        };
    }
    b
}

type Pab<S, D, I, P> = PropertyAffordanceBuilder<S, D, I, P>;
type Usable<S> = Pab<
    S,
    PartialDataSchema<
        <S as ExtendableThing>::DataSchema,
        <S as ExtendableThing>::ArraySchema,
        <S as ExtendableThing>::ObjectSchema,
    >,
    <S as ExtendableThing>::InteractionAffordance,
    <S as ExtendableThing>::PropertyAffordance,
>;
type Pds<S, X> = PartialDataSchemaBuilder<
    X,
    <S as ExtendableThing>::ArraySchema,
    <S as ExtendableThing>::ObjectSchema,
    ToExtend,
>;

fn property<S: Es>(b: Pab<S, Pds<S, Nil>, Nil, Nil>, d: &J, st: &mut St) -> Usable<S> {
    let mut calls = aff_calls_of(d);
    one(d, "observable", &mut calls);
    let mut dsc = Vec::new();
    ds_calls_of(d, &mut dsc);
    let mut x = AffOps(Ops::new(calls, st), Ops::new(dsc, st));
    let order = if st.plain { 0 } else { st.rng.below(4) };
    let b = match order {
        0 => {
            let b = S::p_inter(b, d, &mut x, st);
            let b = S::p_prop(b, d, &mut x, st);
            S::p_ds(b, d, &mut x, st)
        }
        1 => {
            let b = S::p_ds(b, d, &mut x, st);
            let b = S::p_inter(b, d, &mut x, st);
            S::p_prop(b, d, &mut x, st)
        }
        2 => {
            let b = S::p_prop(b, d, &mut x, st);
            let b = S::p_ds(b, d, &mut x, st);
            S::p_inter(b, d, &mut x, st)
        }
        _ => {
            let b = S::p_ds(b, d, &mut x, st);
            let b = S::p_prop(b, d, &mut x, st);
            S::p_inter(b, d, &mut x, st)
        }
    };
    let AffOps(mut aff, mut dsq) = x;
    let mut b = prop_calls(b, aff.some(st), st);
    for c in dsq.some(st) {
        b = ds_call::<S::DataSchema, S::ArraySchema, S::ObjectSchema, ToExtend, _>(b, &c);
    }
    let b = b.finish_extend_data_schema();
    let mut b = prop_calls(b, aff.some(st), st);
    for c in dsq.some(st) {
        b = ds_call::<S::DataSchema, S::ArraySchema, S::ObjectSchema, Extended, _>(b, &c);
    }
    let mut left = aff.rest();
    left.extend(dsq.rest());
    let mut ops = Ops::new_keep(left, st);
    specialize!(S, b, d, ops, st, more_prop, str_none, |r| r.into_usable())
}

impl Ops {
    /// Like `new`, without adding superseded calls.
    fn new_keep(q: Vec<Call>, _: &mut St) -> Self {
        Ops { q, pos: 0 }
    }
}

fn act_calls<S: Es, I, X>(
    mut b: ActionAffordanceBuilder<S, I, X>,
    calls: Vec<Call>,
    st: &mut St,
) -> ActionAffordanceBuilder<S, I, X> {
    for c in &calls {
        b = match hr(b, c) {
            Ok(b) => b,
            Err(b) => match c.k.as_str() {
                "input" => b.input(sub_ds!(S, c.v, st)),
                "output" => b.output(sub_ds!(S, c.v, st)),
                "safe" if c.v.bool() => b.safe(),
                "idempotent" if c.v.bool() => b.idempotent(),
                "safe" | "idempotent" => b,
                "synchronous" => b.synchronous(c.v.bool()),
                _ => inter_call::<S, _>(b, c, st),
            },
        };
    }
    b
}

fn action<S: Es>(
    b: ActionAffordanceBuilder<S, Nil, Nil>,
    d: &J,
    st: &mut St,
) -> ActionAffordanceBuilder<S, S::InteractionAffordance, S::ActionAffordance> {
    let mut calls = aff_calls_of(d);
    for k in ["input", "output", "safe", "idempotent", "synchronous"] {
        one(d, k, &mut calls);
    }
    let mut x = AffOps(Ops::new(calls, st), Ops { q: vec![], pos: 0 });
    let b = if st.plain || st.rng.chance(1, 2) {
        let b = S::a_inter(b, d, &mut x, st);
        S::a_act(b, d, &mut x, st)
    } else {
        let b = S::a_act(b, d, &mut x, st);
        S::a_inter(b, d, &mut x, st)
    };
    act_calls(b, x.0.rest(), st)
}

fn ev_calls<S: Es, I, X>(
    mut b: EventAffordanceBuilder<S, I, X>,
    calls: Vec<Call>,
    st: &mut St,
) -> EventAffordanceBuilder<S, I, X> {
    for c in &calls {
        b = match hr(b, c) {
            Ok(b) => b,
            Err(b) => match c.k.as_str() {
                "subscription" => b.subscription(sub_ds!(S, c.v, st)),
                "data" => b.data(sub_ds!(S, c.v, st)),
                "data_response" => b.data_response(sub_ds!(S, c.v, st)),
                "cancellation" => b.cancellation(sub_ds!(S, c.v, st)),
                _ => inter_call::<S, _>(b, c, st),
            },
        };
    }
    b
}

fn event<S: Es>(
    b: EventAffordanceBuilder<S, Nil, Nil>,
    d: &J,
    st: &mut St,
) -> EventAffordanceBuilder<S, S::InteractionAffordance, S::EventAffordance> {
    let mut calls = aff_calls_of(d);
    for k in ["subscription", "data", "data_response", "cancellation"] {
        one(d, k, &mut calls);
    }
    let mut x = AffOps(Ops::new(calls, st), Ops { q: vec![], pos: 0 });
    let b = if st.plain || st.rng.chance(1, 2) {
        let b = S::e_inter(b, d, &mut x, st);
        S::e_ev(b, d, &mut x, st)
    } else {
        let b = S::e_ev(b, d, &mut x, st);
        S::e_inter(b, d, &mut x, st)
    };
    ev_calls(b, x.0.rest(), st)
}

// ---------------------------------------------------------------- security

fn loc_from(v: &J) -> SecurityAuthenticationLocation {
    use SecurityAuthenticationLocation::*;
    match v.str().unwrap_or_default() {
        "header" => Header,
        "query" => Query,
        "body" => Body,
        "cookie" => Cookie,
        "uri" => Uri,
        x => panic!("harness: no location {x}"),
    }
}

fn sec_calls(d: &J, key: Option<&str>, required: bool, st: &mut St) -> Ops {
    let mut calls = Vec::new();
    many(d, "@type", &mut calls);
    for k in ["description", "descriptions", "proxy"] {
        one(d, k, &mut calls);
    }
    if let Some(k) = key {
        calls.push(Call::new("key", k, J::Null));
    }
    if required {
        calls.push(Call::new("required", "", J::Null));
    }
    Ops::new(calls, st)
}

fn sec_common<T>(mut b: SecuritySchemeBuilder<T>, calls: Vec<Call>) -> SecuritySchemeBuilder<T> {
    for c in calls {
        b = match c.k.as_str() {
            "@type" => b.attype(t(&c.v)),
            "description" => b.description(t(&c.v)),
            "descriptions" => {
                let v = c.v.clone();
                b.descriptions(move |m| ml(&v)(m))
            }
            "proxy" => b.proxy(t(&c.v)),
            "key" => b.with_key(c.name.clone()),
            _ => b.required(),
        };
    }
    b
}

/// `v` is `{"key": .., "required": .., "def": the definition}`; no key takes the default one.
fn security<O: ExtendableThing, T>(
    tb: ThingBuilder<O, T>,
    v: &J,
    st: &mut St,
) -> ThingBuilder<O, T> {
    let key = v.get("key").map(t);
    let key = key.as_deref();
    let required = v.get("required").is_some_and(|x| x.bool());
    let empty = J::obj();
    let d = v.get("def").unwrap_or(&empty);
    let mut ops = sec_calls(d, key, required, st);
    macro_rules! go {
        (|$b:ident| $start:expr, |$c:ident| $body:block) => {
            tb.security(|$b| {
                // Before it has a scheme, with it, and when the scheme says everything.
                let $b = sec_common($b, ops.some(st));
                let $c = sec_common($start, ops.some(st));
                #[allow(unused_mut)]
                let mut $c = $c;
                let $c = $body;
                sec_common($c, ops.rest())
            })
        };
    }
    /// Is it said before, and something else?
    fn again(st: &mut St) -> bool {
        !st.plain && st.rng.chance(1, 10)
    }
    macro_rules! text {
        ($c:ident, $k:literal, $f:ident) => {
            if let Some(n) = d.get($k) {
                if again(st) {
                    $c = $c.$f("superseded");
                }
                $c = $c.$f(t(n));
            }
        };
    }
    macro_rules! loc_name {
        ($c:ident) => {
            if let Some(l) = d.get("in") {
                if again(st) {
                    $c = $c.location(SecurityAuthenticationLocation::Uri);
                }
                $c = $c.location(loc_from(l));
            }
            text!($c, "name", name);
        };
    }
    match d.get("scheme").and_then(|x| x.str()).unwrap_or("") {
        "nosec" => go!(|b| b.no_sec(), |c| { c }),
        "auto" => go!(|b| b.auto(), |c| { c }),
        "basic" => go!(|b| b.basic(), |c| {
            loc_name!(c);
            c
        }),
        "apikey" => go!(|b| b.apikey(), |c| {
            loc_name!(c);
            c
        }),
        "digest" => go!(|b| b.digest(), |c| {
            loc_name!(c);
            if let Some(q) = d.get("qop") {
                if again(st) {
                    c = c.qop(if q.str() == Some("auth") {
                        QualityOfProtection::AuthInt
                    } else {
                        QualityOfProtection::Auth
                    });
                }
                c = c.qop(if q.str() == Some("auth") {
                    QualityOfProtection::Auth
                } else {
                    QualityOfProtection::AuthInt
                });
            }
            c
        }),
        "bearer" => go!(|b| b.bearer(), |c| {
            loc_name!(c);
            text!(c, "authorization", authorization);
            text!(c, "alg", alg);
            text!(c, "format", format);
            c
        }),
        "psk" => go!(|b| b.psk(), |c| { c }),
        "oauth2" => go!(
            |b| b.oauth2(d.get("flow").map(t).unwrap_or_default()),
            |c| {
                text!(c, "authorization", authorization);
                text!(c, "token", token);
                text!(c, "refresh", refresh);
                if let Some(x) = d.get("scopes") {
                    for x in x.arr() {
                        c = c.scope(t(x));
                    }
                }
                c
            }
        ),
        "combo" => {
            let (names, all) = match d.get("allOf") {
                Some(x) => (x, true),
                None => (d.get("oneOf").unwrap_or(&empty), false),
            };
            let names: Vec<String> = names.arr().iter().map(t).collect();
            let cut = if st.plain {
                names.len()
            } else {
                st.rng.below(names.len() as u64 + 1) as usize
            };
            let (first, more) = names.split_at(cut);
            let push = !st.plain && st.rng.chance(1, 2);
            macro_rules! combo {
                ($m:ident) => {
                    go!(|b| b.combo(), |c| {
                        let mut c = c.$m(first.iter().cloned());
                        if push {
                            for x in more {
                                c = c.push(x.clone());
                            }
                        } else {
                            c = c.extend(more.iter().cloned());
                        }
                        c
                    })
                };
            }
            if all {
                combo!(all_of)
            } else {
                combo!(one_of)
            }
        }
        scheme => {
            let scheme = scheme.to_string();
            let data: Vec<(String, J)> = d
                .members()
                .iter()
                .filter(|(k, _)| {
                    !matches!(
                        k.as_str(),
                        "scheme" | "@type" | "description" | "descriptions" | "proxy"
                    )
                })
                .cloned()
                .collect();
            go!(|b| b.custom(scheme), |c| {
                if !data.is_empty() {
                    c = c.data(J::Obj(data).to_value());
                }
                c
            })
        }
    }
}

// ---------------------------------------------------------------- the thing

pub fn is_plain(k: &str) -> bool {
    !matches!(
        k,
        "forms" | "uriVariables" | "properties" | "actions" | "events" | "schemaDefinitions"
    )
}

fn plain_call<O: ExtendableThing, T>(
    b: ThingBuilder<O, T>,
    c: &Call,
    st: &mut St,
) -> ThingBuilder<O, T> {
    match c.k.as_str() {
        "id" => b.id(t(&c.v)),
        "description" => b.description(t(&c.v)),
        "version" => {
            let instance = c.v.get("instance").map(t).unwrap_or_default();
            match c.v.get("model") {
                Some(m) => b.version(VersionInfo {
                    instance,
                    model: Some(t(m)),
                }),
                None => b.version(instance),
            }
        }
        "created" => b.created(date_from(&c.v)),
        "modified" => b.modified(date_from(&c.v)),
        "support" => b.support(t(&c.v)),
        "base" => b.base(t(&c.v)),
        "@type" => b.attype(t(&c.v)),
        "titles" => {
            let v = c.v.clone();
            b.titles(move |m| ml(&v)(m))
        }
        "descriptions" => {
            let v = c.v.clone();
            b.descriptions(move |m| ml(&v)(m))
        }
        "links" => link(b, &c.v, st),
        "security" => security(b, &c.v, st),
        "profile" => b.profile(t(&c.v)),
        "context" => b.context(t(&c.v)),
        "context_map" => b.context_map(|m| {
            for (k, v) in c.v.members() {
                if !st.plain && st.rng.chance(1, 10) {
                    m.context(k.clone(), "urn:superseded");
                }
                m.context(k.clone(), t(v));
            }
            m
        }),
        k => panic!("harness: no thing call {k}"),
    }
}

fn link<O: ExtendableThing, T>(b: ThingBuilder<O, T>, d: &J, st: &mut St) -> ThingBuilder<O, T> {
    let mut calls = Vec::new();
    for k in ["type", "rel", "anchor", "sizes"] {
        one(d, k, &mut calls);
    }
    many(d, "hreflang", &mut calls);
    let href = d.get("href").map(t).unwrap_or_default();
    if calls.is_empty() && (st.plain || st.rng.chance(1, 2)) {
        return b.link(href);
    }
    let mut ops = Ops::new(calls, st);
    b.link_with(|mut b| {
        macro_rules! call {
            ($b:ident, $c:ident) => {
                match $c.k.as_str() {
                    "type" => $b.ty(t(&$c.v)),
                    "rel" => $b.rel(t(&$c.v)),
                    "anchor" => $b.anchor(t(&$c.v)),
                    "sizes" => $b.sizes(t(&$c.v)),
                    _ => $b.hreflang(t(&$c.v)),
                }
            };
        }
        for c in ops.some(st) {
            b = call!(b, c);
        }
        let mut b = b.href(href);
        for c in ops.rest() {
            b = call!(b, c);
        }
        b
    })
}

/// Makes some of the leading calls that any state of the builder takes.
fn plain_some<O: ExtendableThing, T>(
    mut b: ThingBuilder<O, T>,
    pre: &mut Vec<Call>,
    st: &mut St,
) -> ThingBuilder<O, T> {
    if st.plain || pre.is_empty() {
        return b;
    }
    let n = st.rng.below(pre.len() as u64 + 1) as usize;
    for c in pre.drain(..n) {
        b = plain_call(b, &c, st);
    }
    b
}

fn full_call<S: Es>(
    b: ThingBuilder<S, Extended>,
    c: &Call,
    st: &mut St,
) -> ThingBuilder<S, Extended> {
    match c.k.as_str() {
        "forms" => b.form(|b| form::<S>(b, &c.v, st)),
        "uriVariables" => b.uri_variable(c.name.clone(), sub_ds!(S, c.v, st)),
        "schemaDefinitions" => b.schema_definition(c.name.clone(), sub_ds!(S, c.v, st)),
        "properties" => b.property(c.name.clone(), |b| property::<S>(b, &c.v, st)),
        "actions" => b.action(c.name.clone(), |b| action::<S>(b, &c.v, st)),
        "events" => b.event(c.name.clone(), |b| event::<S>(b, &c.v, st)),
        _ => plain_call(b, c, st),
    }
}

/// `between` runs before every call and before the build: the other nodes' turn.
pub fn build<S: Es>(
    title: &str,
    ext: &J,
    calls: &[Call],
    st: &mut St,
    between: &mut dyn FnMut(),
) -> Result<Thing<S>, wot_td::builder::Error> {
    let lead = calls.iter().position(|c| !is_plain(&c.k)).unwrap_or(calls.len());
    let mut pre = calls[..lead].to_vec();
    between();
    let b = if st.plain || st.rng.chance(1, 2) {
        Thing::builder(title)
    } else {
        ThingBuilder::<S, ToExtend>::new_empty_nil(title)
    };
    let mut b = S::thing(b, ext, &mut pre, st);
    // A Thing without schemas and forms can be built before it is done with extending.
    if lead == calls.len() && !st.plain && st.rng.chance(1, 2) {
        for c in &pre {
            between();
            b = plain_call(b, c, st);
        }
        between();
        return b.build();
    }
    let mut b = b.finish_extend();
    for c in pre.iter().chain(&calls[lead..]) {
        between();
        b = full_call(b, c, st);
    }
    between();
    b.build()
}

trait NewEmpty {
    fn new_empty_nil(title: &str) -> ThingBuilder<Nil, ToExtend>;
}
impl<S: Es> NewEmpty for ThingBuilder<S, ToExtend> {
    fn new_empty_nil(title: &str) -> ThingBuilder<Nil, ToExtend> {
        ThingBuilder::<Nil, ToExtend>::new_empty(title)
    }
}

#[allow(dead_code)]
fn assert_subtype<T: BuildableSecuritySchemeSubtype>() {}
