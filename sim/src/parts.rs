//! Taking a Thing apart into pieces that are written and read on their own, and putting read
//! pieces together again. One walk finds the places of the pieces for both.

use std::{collections::BTreeMap, mem};

use serde::{de::DeserializeOwned, Serialize};
use wot_td::{
    extend::ExtendableThing,
    thing::*,
};

use simcore::{
    gram::N,
    io::{Cut, Sink, Stop, KILLED, KINDS},
    j::J,
    tape::Rng,
};

use crate::{
    any::{AnyThing, Dyn, Src},
    observe::{self, Obs},
    seam,
};

type Ds<O> = DataSchema<
    <O as ExtendableThing>::DataSchema,
    <O as ExtendableThing>::ArraySchema,
    <O as ExtendableThing>::ObjectSchema,
>;
type Sub<O> = DataSchemaSubtype<
    <O as ExtendableThing>::DataSchema,
    <O as ExtendableThing>::ArraySchema,
    <O as ExtendableThing>::ObjectSchema,
>;
type Arr<O> = ArraySchema<
    <O as ExtendableThing>::DataSchema,
    <O as ExtendableThing>::ArraySchema,
    <O as ExtendableThing>::ObjectSchema,
>;
type Obj<O> = ObjectSchema<
    <O as ExtendableThing>::DataSchema,
    <O as ExtendableThing>::ArraySchema,
    <O as ExtendableThing>::ObjectSchema,
>;
type Resp<O> = ExpectedResponse<<O as ExtendableThing>::ExpectedResponse>;

/// Where a piece belongs: what it is, and the members that lead to it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Property,
    Action,
    Event,
    Interaction,
    Form,
    Response,
    More,
    Schema,
    Subtype,
    Array,
    Object,
    Number,
    Integer,
    String,
    Link,
    Security,
    Scheme,
    Version,
    /// All the rest.
    Thing,
}
pub type Place = (Kind, Vec<String>);

impl Kind {
    /// The kind of node of a description.
    pub fn node(self) -> Option<N> {
        Some(match self {
            Kind::Thing => N::Thing,
            Kind::Property => N::Prop,
            Kind::Action => N::Action,
            Kind::Event => N::Event,
            Kind::Form => N::Form,
            Kind::Response => N::Resp,
            Kind::More => N::AddResp,
            Kind::Schema => N::Ds,
            Kind::Link => N::Link,
            Kind::Security => N::Sec,
            Kind::Version => N::Version,
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Part {
    pub place: Place,
    pub text: Vec<u8>,
}

pub enum At<'a, O: ExtendableThing> {
    Property(&'a mut PropertyAffordance<O>),
    Action(&'a mut ActionAffordance<O>),
    Event(&'a mut EventAffordance<O>),
    Interaction(&'a mut InteractionAffordance<O>),
    Form(&'a mut Form<O>),
    Response(&'a mut Resp<O>),
    More(&'a mut AdditionalExpectedResponse),
    Schema(&'a mut Ds<O>),
    Subtype(&'a mut Sub<O>),
    Array(&'a mut Arr<O>),
    Object(&'a mut Obj<O>),
    Number(&'a mut NumberSchema),
    Integer(&'a mut IntegerSchema),
    String(&'a mut StringSchema),
    Link(&'a mut Link),
    Security(&'a mut SecurityScheme),
    Scheme(&'a mut KnownSecuritySchemeSubtype),
    Version(&'a mut VersionInfo),
}

/// Is called for every piece twice: before what is in it and after that.
pub struct Walk<'f, O: ExtendableThing> {
    path: Vec<String>,
    f: &'f mut dyn FnMut(bool, &[String], At<O>),
}

macro_rules! around {
    ($w:expr, $k:ident, $x:expr, $in:expr) => {{
        ($w.f)(true, &$w.path, At::$k(&mut *$x));
        $in;
        ($w.f)(false, &$w.path, At::$k(&mut *$x));
    }};
}

impl<'f, O: ExtendableThing> Walk<'f, O> {
    fn at(&mut self, k: &str, f: impl FnOnce(&mut Self)) {
        self.path.push(k.to_string());
        f(self);
        self.path.pop();
    }
    fn map<X>(
        &mut self,
        k: &str,
        m: &mut Option<std::collections::HashMap<String, X>>,
        f: impl Fn(&mut Self, &mut X),
    ) {
        let Some(m) = m else { return };
        let mut keys: Vec<String> = m.keys().cloned().collect();
        keys.sort();
        self.at(k, |w| {
            for k in keys {
                let x = m.get_mut(&k).expect("harness");
                w.at(&k, |w| f(w, x));
            }
        });
    }
    fn list<X>(&mut self, k: &str, l: &mut [X], f: impl Fn(&mut Self, &mut X)) {
        self.at(k, |w| {
            for (i, x) in l.iter_mut().enumerate() {
                w.at(&i.to_string(), |w| f(w, x));
            }
        });
    }
    fn schema(&mut self, d: &mut Ds<O>) {
        around!(self, Schema, d, {
            if let Some(s) = &mut d.subtype {
                self.subtype(s);
            }
            if let Some(l) = &mut d.one_of {
                self.list("oneOf", l, Self::schema);
            }
        });
    }
    fn subtype(&mut self, s: &mut Sub<O>) {
        around!(self, Subtype, s, {
            match s {
                DataSchemaSubtype::Array(x) => around!(self, Array, x, {
                    match &mut x.items {
                        None => {}
                        Some(BoxedElemOrVec::Elem(d)) => self.at("items", |w| w.schema(d)),
                        Some(BoxedElemOrVec::Vec(l)) => self.list("items", l, Self::schema),
                    }
                }),
                DataSchemaSubtype::Object(x) => {
                    around!(self, Object, x, self.map("properties", &mut x.properties, Self::schema))
                }
                DataSchemaSubtype::Number(x) => around!(self, Number, x, ()),
                DataSchemaSubtype::Integer(x) => around!(self, Integer, x, ()),
                DataSchemaSubtype::String(x) => around!(self, String, x, ()),
                DataSchemaSubtype::Boolean | DataSchemaSubtype::Null => {}
            }
        });
    }
    fn form(&mut self, x: &mut Form<O>) {
        around!(self, Form, x, {
            if let Some(r) = &mut x.response {
                self.at("response", |w| around!(w, Response, r, ()));
            }
            if let Some(l) = &mut x.additional_responses {
                self.list("additionalResponses", l, |w, r| around!(w, More, r, ()));
            }
        });
    }
    fn interaction(&mut self, x: &mut InteractionAffordance<O>) {
        around!(self, Interaction, x, {
            self.list("forms", &mut x.forms, Self::form);
            self.map("uriVariables", &mut x.uri_variables, Self::schema);
        });
    }
    fn opt(&mut self, k: &str, x: &mut Option<Ds<O>>) {
        if let Some(d) = x {
            self.at(k, |w| w.schema(d));
        }
    }
    pub fn thing(t: &mut Thing<O>, f: &'f mut dyn FnMut(bool, &[String], At<O>)) {
        let mut w = Walk { path: Vec::new(), f };
        w.map("properties", &mut t.properties, |w, x| {
            around!(w, Property, x, {
                w.interaction(&mut x.interaction);
                w.schema(&mut x.data_schema);
            })
        });
        w.map("actions", &mut t.actions, |w, x| {
            around!(w, Action, x, {
                w.interaction(&mut x.interaction);
                w.opt("input", &mut x.input);
                w.opt("output", &mut x.output);
            })
        });
        w.map("events", &mut t.events, |w, x| {
            around!(w, Event, x, {
                w.interaction(&mut x.interaction);
                w.opt("subscription", &mut x.subscription);
                w.opt("data", &mut x.data);
                w.opt("data_response", &mut x.data_response);
                w.opt("cancellation", &mut x.cancellation);
            })
        });
        if let Some(l) = &mut t.links {
            w.list("links", l, |w, x| around!(w, Link, x, ()));
        }
        if let Some(l) = &mut t.forms {
            w.list("forms", l, Self::form);
        }
        let mut defs = Some(mem::take(&mut t.security_definitions));
        w.map("securityDefinitions", &mut defs, |w, x| {
            around!(w, Security, x, {
                if let SecuritySchemeSubtype::Known(k) = &mut x.subtype {
                    around!(w, Scheme, k, ())
                }
            })
        });
        t.security_definitions = defs.expect("harness");
        w.map("uriVariables", &mut t.uri_variables, Self::schema);
        w.map("schemaDefinitions", &mut t.schema_definitions, Self::schema);
        if let Some(v) = &mut t.version {
            w.at("version", |w| around!(w, Version, v, ()));
        }
    }
}

/// How pieces are chosen and written.
#[derive(Clone, Copy)]
pub struct How {
    pub seed: u64,
    /// Out of 16: how many places are taken out.
    pub density: u64,
    pub max: usize,
    /// Out of 16: how often the sink breaks first.
    pub ill: u64,
}

fn text<T: Serialize>(x: &T, style: u64) -> serde_json::Result<Vec<u8>> {
    match style {
        0 => serde_json::to_vec_pretty(x),
        1 => serde_json::to_vec(&serde_json::to_value(x)?),
        _ => serde_json::to_vec(x),
    }
}
/// Writes a piece, sometimes to a sink that breaks first.
fn write<T: Serialize>(x: &T, r: &mut Rng, ill: u64, broken: &mut u64) -> Result<Vec<u8>, String> {
    let style = r.below(6);
    let b = text(x, style).map_err(|e| format!("cannot be written: {e}"))?;
    if !r.chance(ill, 16) {
        return Ok(b);
    }
    // Then once more on a sink that breaks, and again on one that works.
    let flat = text(x, 2).map_err(|e| format!("cannot be written again: {e}"))?;
    let pos = r.below(flat.len() as u64) as usize;
    let kind = KINDS[r.below(KINDS.len() as u64) as usize];
    let stop = match r.below(4) {
        0 => Stop::Once(pos, kind),
        1 => Stop::Full(pos),
        2 => Stop::Panic(pos),
        _ => Stop::Fail(pos, kind),
    };
    *broken += 1;
    let mut sink = Sink::new(Cut { max: [0, 1, 5][r.below(3) as usize], interrupts: [0, 3][r.below(2) as usize], seed: r.next() }, stop);
    let res = seam::catching(|| serde_json::to_writer(&mut sink, x));
    match res {
        Ok(Ok(())) => return Err(format!("is written to a sink that breaks ({stop:?} of {}) as if it worked", flat.len())),
        Ok(Err(e)) if e.is_io() => {}
        Ok(Err(e)) => return Err(format!("is reported as {e} on a sink that breaks ({stop:?})")),
        Err(e) if matches!(stop, Stop::Panic(_)) && e.contains(KILLED) => {}
        Err(e) => return Err(format!("panics on a sink that breaks ({stop:?}): {e}")),
    }
    if !flat.starts_with(&sink.data) {
        return Err(format!("is begun in another way on a sink that breaks ({stop:?}): {}", String::from_utf8_lossy(&sink.data)));
    }
    let b2 = text(x, style).map_err(|e| format!("cannot be written after a sink broke ({stop:?}): {e}"))?;
    if b2 != b {
        return Err(format!(
            "is written in another way after a sink broke ({stop:?}): {} and before {}",
            String::from_utf8_lossy(&b2),
            String::from_utf8_lossy(&b)
        ));
    }
    Ok(b2)
}
pub fn read<T: DeserializeOwned>(src: Src) -> serde_json::Result<T> {
    match src {
        Src::Slice(b) => serde_json::from_slice(b),
        Src::Reader(r) => serde_json::from_reader(r),
        Src::Value(v) => serde_json::from_value(v),
    }
}

/// A node that gathers pieces and puts them together.
pub trait Keeper: Send {
    fn take(&mut self, place: &Place, src: Src) -> serde_json::Result<()>;
    fn has(&self, place: &Place) -> bool;
    /// What a gathered piece says, where the vocabulary has a word for such a piece.
    fn says(&self, place: &Place) -> Option<J>;
    /// Writes a gathered piece.
    fn give(&self, place: &Place, style: u64) -> Result<Vec<u8>, String>;
    /// The Thing, and how many pieces went into it.
    fn join(&mut self) -> Result<(Dyn, usize), String>;
}

macro_rules! keeper {
    ($($k:ident $t:ty),*) => {
        pub enum Kept<O: ExtendableThing> {
            Thing(Box<Thing<O>>),
            $( $k(Box<$t>), )*
        }
        pub struct Gathered<O: ExtendableThing>(BTreeMap<Place, Kept<O>>);

        impl<O: ExtendableThing> Default for Gathered<O> {
            fn default() -> Self {
                Gathered(BTreeMap::new())
            }
        }

        impl<O> Keeper for Gathered<O>
        where
            O: Obs,
            Thing<O>: AnyThing + Serialize + DeserializeOwned + 'static,
            Kept<O>: Send,
            $( $t: Serialize + DeserializeOwned, )*
        {
            fn take(&mut self, place: &Place, src: Src) -> serde_json::Result<()> {
                let x = match place.0 {
                    Kind::Thing => Kept::Thing(Box::new(read(src)?)),
                    $( Kind::$k => Kept::$k(Box::new(read(src)?)), )*
                };
                self.0.insert(place.clone(), x);
                Ok(())
            }
            fn has(&self, place: &Place) -> bool {
                self.0.contains_key(place)
            }
            fn says(&self, place: &Place) -> Option<J> {
                Some(match self.0.get(place)? {
                    Kept::Thing(x) => observe::thing(x),
                    Kept::Property(x) => observe::property(x),
                    Kept::Action(x) => observe::action(x),
                    Kept::Event(x) => observe::event(x),
                    Kept::Form(x) => observe::form(x),
                    Kept::Response(x) => observe::response(x),
                    Kept::More(x) => observe::more(x),
                    Kept::Schema(x) => observe::ds(x),
                    Kept::Link(x) => observe::link(x),
                    Kept::Security(x) => observe::sec(x),
                    Kept::Version(x) => observe::version(x),
                    _ => return None,
                })
            }
            fn give(&self, place: &Place, style: u64) -> Result<Vec<u8>, String> {
                match self.0.get(place) {
                    Some(Kept::Thing(x)) => text(&**x, style),
                    $( Some(Kept::$k(x)) => text(&**x, style), )*
                    None => panic!("harness: no such piece"),
                }
                .map_err(|e| e.to_string())
            }
            fn join(&mut self) -> Result<(Dyn, usize), String> {
                let Some(Kept::Thing(mut t)) = self.0.remove(&(Kind::Thing, Vec::new())) else {
                    return Err("no rest".into());
                };
                let mut n = 1;
                Walk::thing(&mut t, &mut |before, path, at| {
                    if !before {
                        return;
                    }
                    match at {
                        $( At::$k(x) => {
                            if let Some(Kept::$k(y)) = self.0.remove(&(Kind::$k, path.to_vec())) {
                                *x = *y;
                                n += 1;
                            }
                        } )*
                    }
                });
                if let Some((p, _)) = self.0.first_key_value() {
                    return Err(format!("there is no place for {p:?}"));
                }
                Ok((t as Dyn, n))
            }
        }

        /// Takes pieces out, leaving empty ones, and writes each on its own.
        pub fn split<O>(mut t: Thing<O>, how: How) -> Result<(Vec<Part>, u64), String>
        where
            O: ExtendableThing,
            Thing<O>: Serialize,
            $( $t: Serialize + Default, )*
        {
            let mut r = Rng::new(how.seed);
            let mut out = Vec::new();
            let mut bad = None;
            let mut broken = 0;
            Walk::thing(&mut t, &mut |before, path, at| {
                if before || out.len() >= how.max || !r.chance(how.density, 16) {
                    return;
                }
                let (k, b) = match at {
                    $( At::$k(x) => (Kind::$k, write(&mem::take(x), &mut r, how.ill, &mut broken)), )*
                };
                match b {
                    Ok(text) => out.push(Part { place: (k, path.to_vec()), text }),
                    Err(e) => bad = Some(format!("{k:?} at /{} {e}", path.join("/"))),
                }
            });
            if let Some(e) = bad {
                return Err(e);
            }
            let rest = write(&t, &mut r, how.ill, &mut broken).map_err(|e| format!("the rest {e}"))?;
            out.push(Part { place: (Kind::Thing, Vec::new()), text: rest });
            Ok((out, broken))
        }

        /// The places of all pieces.
        pub fn places<O: ExtendableThing>(t: &mut Thing<O>) -> Vec<Place> {
            let mut v = vec![(Kind::Thing, Vec::new())];
            Walk::thing(t, &mut |before, path, at| {
                if before {
                    v.push((match at { $( At::$k(_) => Kind::$k, )* }, path.to_vec()));
                }
            });
            v
        }

        /// Does this text read as such a piece equal the one in this place?
        pub fn agrees<O>(t: &mut Thing<O>, place: &Place, src: Src) -> serde_json::Result<bool>
        where
            O: ExtendableThing,
            Thing<O>: DeserializeOwned + PartialEq,
            $( $t: DeserializeOwned + PartialEq, )*
        {
            match place.0 {
                Kind::Thing => { let y: Thing<O> = read(src)?; Ok(y == *t && *t == y) }
                $( Kind::$k => {
                    let y: $t = read(src)?;
                    let mut ok = false;
                    Walk::thing(t, &mut |before, path, at| {
                        if let At::$k(x) = at {
                            if before && path == place.1 {
                                ok = y == *x && *x == y;
                            }
                        }
                    });
                    Ok(ok)
                } )*
            }
        }
    };
}
keeper!(
    Property PropertyAffordance<O>,
    Action ActionAffordance<O>,
    Event EventAffordance<O>,
    Interaction InteractionAffordance<O>,
    Form Form<O>,
    Response Resp<O>,
    More AdditionalExpectedResponse,
    Schema Ds<O>,
    Subtype Sub<O>,
    Array Arr<O>,
    Object Obj<O>,
    Number NumberSchema,
    Integer IntegerSchema,
    String StringSchema,
    Link Link,
    Security SecurityScheme,
    Scheme KnownSecuritySchemeSubtype,
    Version VersionInfo
);

