//! The Thing Description vocabulary, written down by hand from the specification, and the
//! reference reader: `norm` says what a document means to a reader with a given extension set,
//! independently of the library's serde definitions.

use crate::j::{s, J};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum N {
    Thing,
    Prop,
    Action,
    Event,
    Ds,
    Link,
    Form,
    Resp,
    AddResp,
    Sec,
    Version,
    Block,
    Header,
    Sub,
}

#[derive(Clone, Copy, Debug)]
pub enum T {
    Any,
    Str,
    Bool,
    U8,
    U16,
    U32,
    Usize,
    I64,
    NzU64,
    F64,
    Date,
    Lang,
    Enum(&'static [&'static str]),
    IntEnum(&'static [i64]),
    Many(&'static T),
    Arr(&'static T),
    Map(&'static T),
    MLang,
    Node(N),
    ElemOrArr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum D {
    No,
    Str(&'static str),
    Bool(bool),
    EmptyArr,
}

impl D {
    pub fn j(self) -> Option<J> {
        match self {
            D::No => None,
            D::Str(x) => Some(s(x)),
            D::Bool(b) => Some(J::Bool(b)),
            D::EmptyArr => Some(J::Arr(vec![])),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct F {
    pub n: &'static str,
    pub t: T,
    pub req: bool,
    pub d: D,
}

const fn o(n: &'static str, t: T) -> F {
    F {
        n,
        t,
        req: false,
        d: D::No,
    }
}
const fn r(n: &'static str, t: T) -> F {
    F {
        n,
        t,
        req: true,
        d: D::No,
    }
}
const fn d(n: &'static str, t: T, d: D) -> F {
    F {
        n,
        t,
        req: false,
        d,
    }
}

pub const TD11: &str = "https://www.w3.org/2022/wot/td/v1.1";

const DS: T = T::Node(N::Ds);
const STRS: T = T::Many(&T::Str);

pub const OPS: &[&str] = &[
    "readproperty",
    "writeproperty",
    "observeproperty",
    "unobserveproperty",
    "invokeaction",
    "queryaction",
    "cancelaction",
    "subscribeevent",
    "unsubscribeevent",
    "readallproperties",
    "writeallproperties",
    "readmultipleproperties",
    "writemultipleproperties",
    "observeallproperties",
    "unobserveallproperties",
    "subscribeallevents",
    "unsubscribeallevents",
    "queryallactions",
];

const THING: &[F] = &[
    d("@context", T::Any, D::Str(TD11)),
    o("id", T::Str),
    o("@type", STRS),
    r("title", T::Str),
    o("titles", T::MLang),
    o("description", T::Str),
    o("descriptions", T::MLang),
    o("version", T::Node(N::Version)),
    o("created", T::Date),
    o("modified", T::Date),
    o("support", T::Str),
    o("base", T::Str),
    o("properties", T::Map(&T::Node(N::Prop))),
    o("actions", T::Map(&T::Node(N::Action))),
    o("events", T::Map(&T::Node(N::Event))),
    o("links", T::Arr(&T::Node(N::Link))),
    o("forms", T::Arr(&T::Node(N::Form))),
    r("security", STRS),
    r("securityDefinitions", T::Map(&T::Node(N::Sec))),
    o("uriVariables", T::Map(&DS)),
    o("profile", STRS),
    o("schemaDefinitions", T::Map(&DS)),
];
const HUMAN: &[F] = &[
    o("@type", STRS),
    o("title", T::Str),
    o("titles", T::MLang),
    o("description", T::Str),
    o("descriptions", T::MLang),
];
const INTER: &[F] = &[
    r("forms", T::Arr(&T::Node(N::Form))),
    o("uriVariables", T::Map(&DS)),
];
const PROP: &[F] = &[o("observable", T::Bool)];
const ACTION: &[F] = &[
    o("input", DS),
    o("output", DS),
    d("safe", T::Bool, D::Bool(false)),
    d("idempotent", T::Bool, D::Bool(false)),
    o("synchronous", T::Bool),
];
// The name `data_response` is a recorded finding (the vocabulary says `dataResponse`): the wire
// name the library uses is taken as it is here.
const EVENT: &[F] = &[
    o("subscription", DS),
    o("data", DS),
    o("data_response", DS),
    o("cancellation", DS),
];
const DSBASE: &[F] = &[
    o("const", T::Any),
    o("default", T::Any),
    o("unit", T::Str),
    o("oneOf", T::Arr(&DS)),
    o("enum", T::Arr(&T::Any)),
    d("readOnly", T::Bool, D::Bool(false)),
    d("writeOnly", T::Bool, D::Bool(false)),
    o("format", T::Str),
];
const NUMBER: &[F] = &[
    o("maximum", T::F64),
    o("exclusiveMaximum", T::F64),
    o("minimum", T::F64),
    o("exclusiveMinimum", T::F64),
    o("multipleOf", T::F64),
];
const INTEGER: &[F] = &[
    o("maximum", T::I64),
    o("exclusiveMaximum", T::I64),
    o("minimum", T::I64),
    o("exclusiveMinimum", T::I64),
    o("multipleOf", T::NzU64),
];
const STRING: &[F] = &[
    o("minLength", T::U32),
    o("maxLength", T::U32),
    o("pattern", T::Str),
    o("contentEncoding", T::Str),
    o("contentMediaType", T::Str),
];
const OBJECT: &[F] = &[
    o("properties", T::Map(&DS)),
    o("required", T::Arr(&T::Str)),
];
const ARRAY: &[F] = &[
    o("items", T::ElemOrArr),
    o("minItems", T::U32),
    o("maxItems", T::U32),
];
const LINK: &[F] = &[
    r("href", T::Str),
    o("type", T::Str),
    o("rel", T::Str),
    o("anchor", T::Str),
    o("sizes", T::Str),
    o("hreflang", T::Many(&T::Lang)),
];
const FORM: &[F] = &[
    o("op", T::Many(&T::Enum(OPS))),
    r("href", T::Str),
    o("contentType", T::Str),
    o("contentCoding", T::Str),
    o("subprotocol", T::Str),
    o("security", STRS),
    o("scopes", STRS),
    o("response", T::Node(N::Resp)),
    o("additionalResponses", T::Many(&T::Node(N::AddResp))),
];
const RESP: &[F] = &[r("contentType", T::Str)];
const ADDRESP: &[F] = &[
    d("success", T::Bool, D::Bool(false)),
    o("contentType", T::Str),
    o("schema", T::Str),
];
const SEC: &[F] = &[
    o("@type", STRS),
    o("description", T::Str),
    o("descriptions", T::MLang),
    o("proxy", T::Str),
];
const LOC: &[&str] = &["header", "query", "body", "cookie", "uri"];
const fn loc(def: &'static str) -> F {
    d("in", T::Enum(LOC), D::Str(def))
}
const BASIC: &[F] = &[loc("header"), o("name", T::Str)];
const DIGEST: &[F] = &[
    d("qop", T::Enum(&["auth", "auth-int"]), D::Str("auth")),
    loc("header"),
    o("name", T::Str),
];
const APIKEY: &[F] = &[loc("query"), o("name", T::Str)];
const BEARER: &[F] = &[
    o("authorization", T::Str),
    d("alg", T::Str, D::Str("ES256")),
    d("format", T::Str, D::Str("jwt")),
    loc("header"),
    o("name", T::Str),
];
const PSK: &[F] = &[o("identity", T::Str)];
const OAUTH2: &[F] = &[
    o("authorization", T::Str),
    o("token", T::Str),
    o("refresh", T::Str),
    o("scopes", STRS),
    r("flow", T::Str),
];
const COMBO: &[F] = &[o("oneOf", STRS), o("allOf", STRS)];
const VERSION: &[F] = &[r("instance", T::Str), o("model", T::Str)];
const BLOCKSIZES: T = T::IntEnum(&[16, 32, 64, 128, 256, 512, 1024]);
const BLOCK: &[F] = &[o("cov:block2Size", BLOCKSIZES), o("cov:block1Size", BLOCKSIZES)];
const HEADER: &[F] = &[o("htv:fieldName", T::Str), o("htv:fieldValue", T::Str)];
const SUB: &[F] = &[r("k", T::Str), o("l", T::Arr(&T::I64))];

pub const TYPES: &[&str] = &[
    "null", "boolean", "string", "integer", "number", "object", "array",
];
pub const SCHEMES: &[&str] = &[
    "nosec", "auto", "basic", "digest", "apikey", "bearer", "psk", "oauth2", "combo",
];

// ---------------------------------------------------------------- extensions

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Set {
    Nil,
    /// `Thing<A>`: an extension used directly, without a list (reading only).
    A,
    E1,
    E2,
    Http,
    Coap,
    Mqtt,
    EP,
    /// Not a reader: every extension member any reader knows.
    All,
}

pub const READERS: &[Set] = &[
    Set::Nil,
    Set::A,
    Set::E1,
    Set::E2,
    Set::Http,
    Set::Coap,
    Set::Mqtt,
    Set::EP,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pt {
    Thing,
    Inter,
    Prop,
    Action,
    Event,
    Form,
    Resp,
    Ds,
    Obj,
    Arr,
}

macro_rules! extf {
    ($($c:ident $p:literal),*) => { $(
        pub const $c: &[F] = &[
            o(concat!($p, "S"), T::Str),
            o(concat!($p, "I"), T::I64),
            o(concat!($p, "O"), T::Node(N::Sub)),
            o(concat!($p, "H"), T::Str),
        ];
    )* };
}
extf!(
    A_THING "a:th", A_INTER "a:in", A_PROP "a:pr", A_ACTION "a:ac", A_EVENT "a:ev",
    A_FORM "a:fo", A_RESP "a:re", A_DS "a:ds", A_OBJ "a:ob", A_ARR "a:ar",
    B_THING "b:th", B_INTER "b:in", B_PROP "b:pr", B_ACTION "b:ac",
    B_FORM "b:fo", B_DS "b:ds", B_OBJ "b:ob"
);
const HTTP_FORM: &[F] = &[o(
    "htv:methodName",
    T::Enum(&["GET", "PUT", "POST", "DELETE", "PATCH"]),
)];
const HTTP_RESP: &[F] = &[
    d("htv:headers", T::Arr(&T::Node(N::Header)), D::EmptyArr),
    o("htv:statusCodeValue", T::Usize),
];
const COAP_FORM: &[F] = &[
    o(
        "cov:method",
        T::Enum(&["GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH"]),
    ),
    o("cov:blockwise", T::Node(N::Block)),
    o("cov:qblockwise", T::Node(N::Block)),
    o("cov:hopLimit", T::U8),
    o("cov:accept", T::U16),
    o("cov:contentFormat", T::U16),
];
const COAP_RESP: &[F] = &[o("cov:contentFormat", T::U16)];
const MQTT_FORM: &[F] = &[
    d("mqv:retain", T::Bool, D::Bool(false)),
    o(
        "mqv:controlPacket",
        T::Enum(&["mqv:publish", "mqv:subscribe", "mqv:unsubscribe"]),
    ),
    o(
        "mqv:qos",
        T::Enum(&["quality:0", "quality:1", "quality:2"]),
    ),
    o("mqv:topic", T::Str),
    d("mqv:filter", T::Many(&T::Str), D::EmptyArr),
];

fn ext_a(p: Pt) -> &'static [F] {
    match p {
        Pt::Thing => A_THING,
        Pt::Inter => A_INTER,
        Pt::Prop => A_PROP,
        Pt::Action => A_ACTION,
        Pt::Event => A_EVENT,
        Pt::Form => A_FORM,
        Pt::Resp => A_RESP,
        Pt::Ds => A_DS,
        Pt::Obj => A_OBJ,
        Pt::Arr => A_ARR,
    }
}
fn ext_b(p: Pt) -> &'static [F] {
    match p {
        Pt::Thing => B_THING,
        Pt::Inter => B_INTER,
        Pt::Prop => B_PROP,
        Pt::Action => B_ACTION,
        Pt::Form => B_FORM,
        Pt::Ds => B_DS,
        Pt::Obj => B_OBJ,
        _ => &[],
    }
}
fn ext_http(p: Pt) -> &'static [F] {
    match p {
        Pt::Form => HTTP_FORM,
        Pt::Resp => HTTP_RESP,
        _ => &[],
    }
}
fn ext_coap(p: Pt) -> &'static [F] {
    match p {
        Pt::Form => COAP_FORM,
        Pt::Resp => COAP_RESP,
        _ => &[],
    }
}
fn ext_mqtt(p: Pt) -> &'static [F] {
    match p {
        Pt::Form => MQTT_FORM,
        _ => &[],
    }
}

pub fn ext(set: Set, p: Pt, out: &mut Vec<&'static [F]>) {
    match set {
        Set::Nil => {}
        Set::A | Set::E1 => out.push(ext_a(p)),
        Set::E2 => out.extend([ext_a(p), ext_b(p)]),
        Set::Http => out.push(ext_http(p)),
        Set::Coap => out.push(ext_coap(p)),
        Set::Mqtt => out.push(ext_mqtt(p)),
        Set::EP => out.extend([ext_http(p), ext_coap(p), ext_mqtt(p)]),
        Set::All => out.extend([
            ext_a(p),
            ext_b(p),
            ext_http(p),
            ext_coap(p),
            ext_mqtt(p),
        ]),
    }
}

pub fn subtype_fields(ty: &str, set: Set, out: &mut Vec<&'static [F]>) {
    match ty {
        "number" => out.push(NUMBER),
        "integer" => out.push(INTEGER),
        "string" => out.push(STRING),
        "object" => {
            out.push(OBJECT);
            ext(set, Pt::Obj, out);
        }
        "array" => {
            out.push(ARRAY);
            ext(set, Pt::Arr, out);
        }
        _ => {}
    }
}

pub fn scheme_fields(scheme: &str) -> Option<&'static [F]> {
    Some(match scheme {
        "nosec" | "auto" => &[],
        "combo" => COMBO,
        "basic" => BASIC,
        "digest" => DIGEST,
        "bearer" => BEARER,
        "psk" => PSK,
        "oauth2" => OAUTH2,
        "apikey" => APIKEY,
        _ => return None,
    })
}

/// The members of an element other than those that depend on its `type` or `scheme`.
pub fn base_fields(n: N, set: Set) -> Vec<&'static [F]> {
    let mut v: Vec<&'static [F]> = Vec::with_capacity(10);
    match n {
        N::Thing => {
            v.push(THING);
            ext(set, Pt::Thing, &mut v);
        }
        N::Prop => {
            v.extend([HUMAN, INTER, DSBASE, PROP]);
            ext(set, Pt::Inter, &mut v);
            ext(set, Pt::Ds, &mut v);
            ext(set, Pt::Prop, &mut v);
        }
        N::Action => {
            v.extend([HUMAN, INTER, ACTION]);
            ext(set, Pt::Inter, &mut v);
            ext(set, Pt::Action, &mut v);
        }
        N::Event => {
            v.extend([HUMAN, INTER, EVENT]);
            ext(set, Pt::Inter, &mut v);
            ext(set, Pt::Event, &mut v);
        }
        N::Ds => {
            v.extend([HUMAN, DSBASE]);
            ext(set, Pt::Ds, &mut v);
        }
        N::Link => v.push(LINK),
        N::Form => {
            v.push(FORM);
            ext(set, Pt::Form, &mut v);
        }
        N::Resp => {
            v.push(RESP);
            ext(set, Pt::Resp, &mut v);
        }
        N::AddResp => v.push(ADDRESP),
        N::Sec => v.push(SEC),
        N::Version => v.push(VERSION),
        N::Block => v.push(BLOCK),
        N::Header => v.push(HEADER),
        N::Sub => v.push(SUB),
    }
    v
}

// ---------------------------------------------------------------- the reference reader

pub struct Norm {
    pub set: Set,
    /// Judge a published document: nothing outside the vocabulary, no null, no repetition.
    pub strict: bool,
    /// Something an implementation may take or leave was met.
    pub unsure: bool,
    /// Something malformed was met where the library is known to drop it (recorded finding).
    pub swallowed: bool,
    path: Vec<String>,
}

type R<X> = Result<X, String>;

/// What reading must make of a document.
#[derive(Debug, Clone)]
pub enum Meaning {
    /// Exactly this.
    Is(J),
    /// An error, or this: the recorded finding about flattened options.
    ErrOr(J),
    /// An error.
    Bad(String),
    /// Any error or any Thing.
    Unsure,
}

pub fn read(doc: &J, set: Set) -> Meaning {
    read_node(N::Thing, doc, set)
}
/// The same for a part that is read on its own.
pub fn read_node(node: N, doc: &J, set: Set) -> Meaning {
    let mut n = Norm::new(set, false);
    match n.node(node, doc) {
        Err(_) if n.unsure => Meaning::Unsure,
        Err(e) => Meaning::Bad(e),
        Ok(_) if n.unsure => Meaning::Unsure,
        Ok(j) if n.swallowed => Meaning::ErrOr(j),
        Ok(j) => Meaning::Is(j),
    }
}

/// The canonical form of a document known to be well-formed.
pub fn canon(doc: &J, set: Set) -> R<J> {
    canon_node(N::Thing, doc, set)
}
pub fn canon_node(n: N, doc: &J, set: Set) -> R<J> {
    let mut m = Norm::new(set, false);
    let j = m.node(n, doc)?;
    if m.unsure || m.swallowed {
        return Err("not plainly well-formed".into());
    }
    Ok(j)
}

/// Judges a published document and gives its canonical form.
pub fn strict(doc: &J, set: Set) -> R<J> {
    let mut n = Norm::new(set, true);
    let j = n.node(N::Thing, doc)?;
    Ok(j)
}

impl Norm {
    pub fn new(set: Set, strict: bool) -> Self {
        Norm {
            set,
            strict,
            unsure: false,
            swallowed: false,
            path: Vec::new(),
        }
    }
    fn bad<X>(&self, m: impl AsRef<str>) -> R<X> {
        Err(format!("{}: {}", self.path.join("/"), m.as_ref()))
    }

    fn field(&mut self, f: &F, obj: &J, out: &mut Vec<(String, J)>) -> R<()> {
        self.path.push(f.n.to_string());
        let v = obj.get(f.n);
        let r = match v {
            None => {
                if f.req {
                    self.bad("mandatory member is missing")
                } else {
                    if let Some(d) = f.d.j() {
                        out.push((f.n.to_string(), d));
                    }
                    Ok(())
                }
            }
            Some(J::Null) if !matches!(f.t, T::Any) => {
                if self.strict {
                    self.bad("null")
                } else if f.req || f.d != D::No {
                    self.bad("null for a member that has a value")
                } else {
                    Ok(())
                }
            }
            Some(v) => self.ty(&f.t, v).map(|j| out.push((f.n.to_string(), j))),
        };
        self.path.pop();
        r
    }

    fn fields(&mut self, fs: &[&'static [F]], obj: &J, out: &mut Vec<(String, J)>) -> R<()> {
        for f in fs.iter().flat_map(|x| x.iter()) {
            self.field(f, obj, out)?;
        }
        Ok(())
    }

    fn dups(&mut self, m: &[(String, J)]) -> R<()> {
        for (i, (k, _)) in m.iter().enumerate() {
            if m[..i].iter().any(|(l, _)| l == k) {
                if self.strict {
                    return self.bad(format!("member {k:?} is repeated"));
                }
                self.unsure = true;
            }
        }
        Ok(())
    }

    fn any(&mut self, v: &J) -> R<J> {
        match v {
            J::Obj(m) => {
                self.dups(m)?;
                for (_, x) in m {
                    self.any(x)?;
                }
            }
            J::Arr(a) => {
                for x in a {
                    self.any(x)?;
                }
            }
            _ => {}
        }
        Ok(v.sorted())
    }

    fn int(&mut self, v: &J, lo: i128, hi: i128) -> R<J> {
        match v {
            J::Int(i) if *i >= lo && *i <= hi => Ok(v.clone()),
            _ => self.bad("not an integer in range"),
        }
    }

    pub fn ty(&mut self, t: &T, v: &J) -> R<J> {
        match t {
            T::Any => self.any(v),
            T::Str => match v {
                J::Str(_) => Ok(v.clone()),
                _ => self.bad("not a string"),
            },
            T::Bool => match v {
                J::Bool(_) => Ok(v.clone()),
                _ => self.bad("not a boolean"),
            },
            T::U8 => self.int(v, 0, u8::MAX as i128),
            T::U16 => self.int(v, 0, u16::MAX as i128),
            T::U32 => self.int(v, 0, u32::MAX as i128),
            T::Usize => self.int(v, 0, u64::MAX as i128),
            T::I64 => self.int(v, i64::MIN as i128, i64::MAX as i128),
            T::NzU64 => self.int(v, 1, u64::MAX as i128),
            T::F64 => match v {
                J::Int(i) => Ok(J::Flt(*i as f64)),
                J::Flt(_) => Ok(v.clone()),
                _ => self.bad("not a number"),
            },
            T::Date => match v {
                J::Str(x) => match crate::dates::canon(x) {
                    Ok(c) => Ok(J::Str(c)),
                    Err(true) => {
                        if self.strict {
                            return self.bad("not an RFC 3339 date");
                        }
                        self.unsure = true;
                        Ok(v.clone())
                    }
                    Err(false) => self.bad("not an RFC 3339 date"),
                },
                _ => self.bad("not a date"),
            },
            T::Lang => match v {
                J::Str(x) => self.lang(x),
                _ => self.bad("not a language tag"),
            },
            T::Enum(names) => match v {
                J::Str(x) if names.contains(&x.as_str()) => Ok(v.clone()),
                J::Obj(_) if !self.strict => {
                    // Recorded finding: {"name": null} is taken for the name.
                    self.unsure = true;
                    Ok(v.clone())
                }
                _ => self.bad("not one of the values of the vocabulary"),
            },
            T::IntEnum(vals) => match v {
                J::Int(i) if vals.iter().any(|x| *x as i128 == *i) => Ok(v.clone()),
                _ => self.bad("not one of the values of the vocabulary"),
            },
            T::Many(t) => match v {
                J::Arr(a) => self.list(t, a),
                // A single array cannot be told from a list.
                v => Ok(J::Arr(vec![self.ty(t, v)?])),
            },
            T::Arr(t) => match v {
                J::Arr(a) => self.list(t, a),
                _ => self.bad("not an array"),
            },
            T::Map(t) => match v {
                J::Obj(m) => {
                    self.dups(m)?;
                    let mut out = Vec::new();
                    for (k, x) in m {
                        self.path.push(k.clone());
                        let x = self.ty(t, x)?;
                        self.path.pop();
                        out.push((k.clone(), x));
                    }
                    out.sort_by(|a, b| a.0.cmp(&b.0));
                    Ok(J::Obj(out))
                }
                _ => self.bad("not an object"),
            },
            T::MLang => match v {
                J::Obj(m) => {
                    self.dups(m)?;
                    let mut out = Vec::new();
                    for (k, x) in m {
                        self.lang(k)?;
                        let x = self.ty(&T::Str, x)?;
                        out.push((k.clone(), x));
                    }
                    out.sort_by(|a, b| a.0.cmp(&b.0));
                    Ok(J::Obj(out))
                }
                _ => self.bad("not an object"),
            },
            T::Node(n) => self.node(*n, v),
            T::ElemOrArr => match v {
                J::Arr(a) => self.list(&DS, a),
                J::Obj(_) => self.node(N::Ds, v),
                _ => self.bad("neither a data schema nor a list of them"),
            },
        }
    }

    fn list(&mut self, t: &T, a: &[J]) -> R<J> {
        let mut out = Vec::with_capacity(a.len());
        for (i, x) in a.iter().enumerate() {
            self.path.push(i.to_string());
            out.push(self.ty(t, x)?);
            self.path.pop();
        }
        Ok(J::Arr(out))
    }

    fn lang(&mut self, x: &str) -> R<J> {
        match lang_verdict(x) {
            Some(true) => Ok(s(x)),
            Some(false) => self.bad("malformed language tag"),
            None => {
                if self.strict {
                    return Ok(s(x));
                }
                self.unsure = true;
                Ok(s(x))
            }
        }
    }

    pub fn node(&mut self, n: N, v: &J) -> R<J> {
        let m = match v {
            J::Obj(m) => m,
            J::Arr(_)
                if !self.strict
                    && matches!(
                        n,
                        N::Link | N::AddResp | N::Version | N::Block | N::Header | N::Sub
                    ) =>
            {
                // Recorded finding: a list is taken for the members in the order of the code.
                self.unsure = true;
                return Ok(v.clone());
            }
            _ => return self.bad("not an object"),
        };
        self.dups(m)?;
        let mut fs = base_fields(n, self.set);
        let mut out: Vec<(String, J)> = Vec::with_capacity(m.len() + 4);
        if n == N::Sec {
            return self.sec(v, m);
        }
        self.fields(&fs, v, &mut out)?;
        if n == N::Ds || n == N::Prop {
            match v.get("type") {
                None | Some(J::Null) => {
                    if self.strict && v.get("type").is_some() {
                        return self.bad("type is null");
                    }
                }
                Some(t) => {
                    let save = self.path.len();
                    let mut extra = Vec::new();
                    match self.subtype(t, v, &mut extra, &mut fs) {
                        Ok(()) => out.extend(extra),
                        Err(e) if self.strict => return Err(e),
                        Err(_) => {
                            self.path.truncate(save);
                            self.swallowed = true;
                        }
                    }
                }
            }
        }
        if self.strict {
            for (k, _) in m {
                let known = fs.iter().flat_map(|x| x.iter()).any(|f| f.n == k)
                    || (k == "type" && (n == N::Ds || n == N::Prop));
                if !known {
                    return self.bad(format!("member {k:?} is not in the vocabulary here"));
                }
            }
        }
        out.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(J::Obj(out))
    }

    fn subtype(
        &mut self,
        t: &J,
        v: &J,
        out: &mut Vec<(String, J)>,
        fs: &mut Vec<&'static [F]>,
    ) -> R<()> {
        let ty = match t {
            J::Str(x) if TYPES.contains(&x.as_str()) => x.as_str(),
            J::Int(_) if !self.strict => {
                // Recorded finding: the index of a type is taken for its name.
                self.unsure = true;
                return self.bad("unknown type");
            }
            _ => return self.bad("unknown type"),
        };
        out.push(("type".into(), s(ty)));
        let mut sub = Vec::new();
        subtype_fields(ty, self.set, &mut sub);
        fs.extend(sub.iter().copied());
        if ty == "number" || ty == "integer" {
            for f in sub[0] {
                let bound = f.n != "multipleOf";
                if bound && matches!(v.get(f.n), Some(J::Null)) && !self.strict {
                    continue;
                }
                let len = self.path.len();
                match self.field(f, v, out) {
                    Ok(()) => {}
                    Err(e) if self.strict || !bound => return Err(e),
                    Err(_) => {
                        self.path.truncate(len);
                        self.swallowed = true;
                        // The other kind of the same bound may or may not survive it.
                        let other = match f.n {
                            "maximum" => "exclusiveMaximum",
                            "exclusiveMaximum" => "maximum",
                            "minimum" => "exclusiveMinimum",
                            _ => "minimum",
                        };
                        if v.get(other).is_some() {
                            self.unsure = true;
                        }
                    }
                }
            }
            for (a, b) in [
                ("maximum", "exclusiveMaximum"),
                ("minimum", "exclusiveMinimum"),
            ] {
                if v.get(a).is_some() && v.get(b).is_some() {
                    // Recorded finding: one of the two is lost.
                    if self.strict {
                        return self.bad("both kinds of a bound");
                    }
                    self.unsure = true;
                }
            }
        } else {
            self.fields(&sub, v, out)?;
        }
        Ok(())
    }

    fn sec(&mut self, v: &J, m: &[(String, J)]) -> R<J> {
        let mut out = Vec::new();
        self.fields(&[SEC], v, &mut out)?;
        let scheme = match v.get("scheme") {
            Some(J::Str(x)) => x.clone(),
            Some(J::Int(_)) if !self.strict => {
                // Recorded finding: the index of a scheme is taken for its name.
                self.unsure = true;
                return Ok(v.clone());
            }
            _ => return self.bad("no scheme"),
        };
        out.push(("scheme".into(), s(scheme.clone())));
        if let Some(fs) = scheme_fields(&scheme) {
            let mut known = Vec::new();
            let save = (self.path.len(), self.swallowed);
            let ok = match self.fields(&[fs], v, &mut known) {
                Ok(()) => {
                    let has = |n: &str| known.iter().any(|(k, _)| k == n);
                    scheme != "combo" || (has("oneOf") != has("allOf"))
                }
                Err(e) if self.strict => return Err(e),
                Err(_) => false,
            };
            if ok {
                if self.strict {
                    for (k, _) in m {
                        if k != "scheme"
                            && !SEC.iter().chain(fs.iter()).any(|f| f.n == k)
                        {
                            return self.bad(format!("member {k:?} is not in the vocabulary here"));
                        }
                    }
                }
                out.extend(known);
                out.sort_by(|a, b| a.0.cmp(&b.0));
                return Ok(J::Obj(out));
            }
            if self.strict {
                return self.bad("malformed security scheme");
            }
            self.path.truncate(save.0);
            self.swallowed = save.1;
        }
        for (k, x) in m {
            if k != "scheme" && !SEC.iter().any(|f| f.n == k) {
                let x = self.any(x)?;
                out.push((k.clone(), x));
            }
        }
        out.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(J::Obj(out))
    }
}

pub const LANGS: &[&str] = &[
    "en", "it", "de", "fr", "ja", "en-US", "pt-BR", "zh-Hant-TW", "de-CH-1996", "sr-Latn", "es-419",
    "sl-rozaj", "x-private", "art-x-sim",
];
pub const BAD_LANGS: &[&str] = &[
    "", "e", "en_US", "en-", "-en", "en--us", "1", "eng1ish", "a-DE", "toolonglanguage", "en us", "ì",
];

/// Other spellings of some of them, and what they are in the canonical case (RFC 5646, 2.1.1),
/// which is what a builder makes of the tags it is given.
pub const LANG_CASES: &[(&str, &str)] = &[
    ("EN", "en"), ("It", "it"), ("en-us", "en-US"), ("EN-US", "en-US"), ("PT-br", "pt-BR"),
    ("zh-hant-tw", "zh-Hant-TW"), ("SR-LATN", "sr-Latn"),
];

/// What the builders make of language tags, anywhere in what was contributed.
pub fn canon_langs(v: &mut J) {
    fn tag(x: &str) -> &str {
        LANG_CASES.iter().find(|(k, _)| *k == x).map(|(_, c)| *c).unwrap_or(x)
    }
    match v {
        J::Arr(a) => a.iter_mut().for_each(canon_langs),
        J::Obj(m) => {
            for (k, x) in m {
                match (k.as_str(), &mut *x) {
                    ("titles" | "descriptions", J::Obj(l)) => {
                        let mut new = J::obj();
                        for (k, v) in l.drain(..) {
                            new.set(tag(&k), v);
                        }
                        *x = new;
                    }
                    ("hreflang", J::Arr(l)) => {
                        for x in l {
                            if let J::Str(t) = x {
                                *t = tag(t).to_string();
                            }
                        }
                    }
                    ("hreflang", J::Str(t)) => *t = tag(t).to_string(),
                    _ => {}
                }
                canon_langs(x);
            }
        }
        _ => {}
    }
}

/// `None` where this list does not say.
pub fn lang_verdict(x: &str) -> Option<bool> {
    if LANGS.contains(&x) || LANG_CASES.iter().any(|(k, _)| *k == x) {
        return Some(true);
    }
    if BAD_LANGS.contains(&x)
        || x.is_empty()
        || x.len() == 1
        || x.starts_with('-')
        || x.ends_with('-')
        || x.contains("--")
        || x.chars().any(|c| !c.is_ascii_alphanumeric() && c != '-')
        || x.split('-').any(|p| p.len() > 8)
    {
        return Some(false);
    }
    if x.len() <= 3 && x.chars().all(|c| c.is_ascii_alphabetic()) {
        return Some(true);
    }
    None
}

pub fn thing_fields() -> &'static [F] {
    THING
}
pub fn human_fields() -> &'static [F] {
    HUMAN
}
pub fn prop_fields() -> &'static [F] {
    PROP
}
pub fn action_fields() -> &'static [F] {
    ACTION
}
pub fn event_fields() -> &'static [F] {
    EVENT
}
