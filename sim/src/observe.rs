//! What a `Thing` says, read from its public fields: the canonical form of the document it stands
//! for, obtained without the library's own serialisation.

use std::collections::HashMap;

use oxilangtag::LanguageTag;
use serde_json::Value;
use time::OffsetDateTime;
use wot_td::{extend::ExtendableThing, thing::*};

use simcore::j::{self, s, J};
use crate::{
    exts::Pc,
};

pub trait Obs:
    Pc
    + ExtendableThing<
        InteractionAffordance: Pc,
        PropertyAffordance: Pc,
        ActionAffordance: Pc,
        EventAffordance: Pc,
        Form: Pc,
        ExpectedResponse: Pc,
        DataSchema: Pc,
        ObjectSchema: Pc,
        ArraySchema: Pc,
    >
{
}
impl<T> Obs for T where
    T: Pc
        + ExtendableThing<
            InteractionAffordance: Pc,
            PropertyAffordance: Pc,
            ActionAffordance: Pc,
            EventAffordance: Pc,
            Form: Pc,
            ExpectedResponse: Pc,
            DataSchema: Pc,
            ObjectSchema: Pc,
            ArraySchema: Pc,
        >
{
}

type M = Vec<(String, J)>;

fn p(m: &mut M, k: &str, v: J) {
    m.push((k.into(), v));
}
fn po(m: &mut M, k: &str, v: Option<J>) {
    if let Some(v) = v {
        m.push((k.into(), v));
    }
}
fn st(v: &Option<String>) -> Option<J> {
    v.as_ref().map(|x| s(x.clone()))
}
fn strs(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| s(x.clone())).collect())
}
fn ostrs(v: &Option<Vec<String>>) -> Option<J> {
    v.as_deref().map(strs)
}
fn val(v: &Value) -> J {
    J::from_value(v).sorted()
}
fn ml(v: &Option<HashMap<LanguageTag<String>, String>>) -> Option<J> {
    v.as_ref().map(|m| {
        let mut o: M = m
            .iter()
            .map(|(k, v)| (k.as_str().to_string(), s(v.clone())))
            .collect();
        o.sort_by(|a, b| a.0.cmp(&b.0));
        J::Obj(o)
    })
}
fn date(v: &Option<OffsetDateTime>) -> Option<J> {
    v.as_ref().map(|d| {
        let (n, o) = (d.unix_timestamp_nanos(), d.offset().whole_seconds());
        s(simcore::dates::spell(n, o).unwrap_or_else(|| format!("unspellable {n} {o}")))
    })
}
fn map<X>(m: &HashMap<String, X>, f: impl Fn(&X) -> J) -> J {
    let mut o: M = m.iter().map(|(k, v)| (k.clone(), f(v))).collect();
    o.sort_by(|a, b| a.0.cmp(&b.0));
    J::Obj(o)
}
fn done(mut m: M) -> J {
    m.sort_by(|a, b| a.0.cmp(&b.0));
    J::Obj(m)
}

pub fn thing<O: Obs>(t: &Thing<O>) -> J {
    let mut m = M::new();
    p(&mut m, "@context", val(&t.context));
    po(&mut m, "id", st(&t.id));
    po(&mut m, "@type", ostrs(&t.attype));
    p(&mut m, "title", s(t.title.clone()));
    po(&mut m, "titles", ml(&t.titles));
    po(&mut m, "description", st(&t.description));
    po(&mut m, "descriptions", ml(&t.descriptions));
    po(
        &mut m,
        "version",
        t.version.as_ref().map(version),
    );
    po(&mut m, "created", date(&t.created));
    po(&mut m, "modified", date(&t.modified));
    po(&mut m, "support", st(&t.support));
    po(&mut m, "base", st(&t.base));
    po(&mut m, "properties", t.properties.as_ref().map(|x| map(x, property)));
    po(&mut m, "actions", t.actions.as_ref().map(|x| map(x, action)));
    po(&mut m, "events", t.events.as_ref().map(|x| map(x, event)));
    po(
        &mut m,
        "links",
        t.links.as_ref().map(|x| J::Arr(x.iter().map(link).collect())),
    );
    po(
        &mut m,
        "forms",
        t.forms.as_ref().map(|x| J::Arr(x.iter().map(form).collect())),
    );
    p(&mut m, "security", strs(&t.security));
    p(&mut m, "securityDefinitions", map(&t.security_definitions, sec));
    po(&mut m, "uriVariables", t.uri_variables.as_ref().map(|x| map(x, ds)));
    po(&mut m, "profile", ostrs(&t.profile));
    po(
        &mut m,
        "schemaDefinitions",
        t.schema_definitions.as_ref().map(|x| map(x, ds)),
    );
    t.other.observe(&mut m);
    done(m)
}

fn human(
    m: &mut M,
    attype: &Option<Vec<String>>,
    title: &Option<String>,
    titles: &Option<HashMap<LanguageTag<String>, String>>,
    description: &Option<String>,
    descriptions: &Option<HashMap<LanguageTag<String>, String>>,
) {
    po(m, "@type", ostrs(attype));
    po(m, "title", st(title));
    po(m, "titles", ml(titles));
    po(m, "description", st(description));
    po(m, "descriptions", ml(descriptions));
}

fn interaction<O: Obs>(m: &mut M, i: &InteractionAffordance<O>) {
    human(m, &i.attype, &i.title, &i.titles, &i.description, &i.descriptions);
    p(m, "forms", J::Arr(i.forms.iter().map(form).collect()));
    po(m, "uriVariables", i.uri_variables.as_ref().map(|x| map(x, ds)));
    i.other.observe(m);
}

pub fn property<O: Obs>(x: &PropertyAffordance<O>) -> J {
    let mut m = M::new();
    interaction(&mut m, &x.interaction);
    // The members both halves have are one member of the description.
    let J::Obj(d) = ds(&x.data_schema) else {
        unreachable!()
    };
    for (k, v) in d {
        match m.iter().find(|(l, _)| *l == k) {
            None => m.push((k, v)),
            Some((_, w)) if *w == v => {}
            Some(_) => m.push((format!("{k} (data schema half)"), v)),
        }
    }
    po(&mut m, "observable", x.observable.map(J::Bool));
    x.other.observe(&mut m);
    done(m)
}

pub fn action<O: Obs>(x: &ActionAffordance<O>) -> J {
    let mut m = M::new();
    interaction(&mut m, &x.interaction);
    po(&mut m, "input", x.input.as_ref().map(ds));
    po(&mut m, "output", x.output.as_ref().map(ds));
    p(&mut m, "safe", J::Bool(x.safe));
    p(&mut m, "idempotent", J::Bool(x.idempotent));
    po(&mut m, "synchronous", x.synchronous.map(J::Bool));
    x.other.observe(&mut m);
    done(m)
}

pub fn event<O: Obs>(x: &EventAffordance<O>) -> J {
    let mut m = M::new();
    interaction(&mut m, &x.interaction);
    po(&mut m, "subscription", x.subscription.as_ref().map(ds));
    po(&mut m, "data", x.data.as_ref().map(ds));
    po(&mut m, "data_response", x.data_response.as_ref().map(ds));
    po(&mut m, "cancellation", x.cancellation.as_ref().map(ds));
    x.other.observe(&mut m);
    done(m)
}

fn bounds<T: Copy>(
    m: &mut M,
    max: &Option<Maximum<T>>,
    min: &Option<Minimum<T>>,
    f: impl Fn(T) -> J,
) {
    match max {
        Some(Maximum::Inclusive(x)) => p(m, "maximum", f(*x)),
        Some(Maximum::Exclusive(x)) => p(m, "exclusiveMaximum", f(*x)),
        None => {}
    }
    match min {
        Some(Minimum::Inclusive(x)) => p(m, "minimum", f(*x)),
        Some(Minimum::Exclusive(x)) => p(m, "exclusiveMinimum", f(*x)),
        None => {}
    }
}

fn u32j(v: Option<u32>) -> Option<J> {
    v.map(|x| J::Int(x as i128))
}

pub fn ds<DS: Pc, AS: Pc, OS: Pc>(d: &DataSchema<DS, AS, OS>) -> J {
    let mut m = M::new();
    human(&mut m, &d.attype, &d.title, &d.titles, &d.description, &d.descriptions);
    po(&mut m, "const", d.constant.as_ref().map(val));
    po(&mut m, "default", d.default.as_ref().map(val));
    po(&mut m, "unit", st(&d.unit));
    po(
        &mut m,
        "oneOf",
        d.one_of.as_ref().map(|x| J::Arr(x.iter().map(ds).collect())),
    );
    po(
        &mut m,
        "enum",
        d.enumeration.as_ref().map(|x| J::Arr(x.iter().map(val).collect())),
    );
    p(&mut m, "readOnly", J::Bool(d.read_only));
    p(&mut m, "writeOnly", J::Bool(d.write_only));
    po(&mut m, "format", st(&d.format));
    if let Some(t) = &d.subtype {
        let ty = match t {
            DataSchemaSubtype::Null => "null",
            DataSchemaSubtype::Boolean => "boolean",
            DataSchemaSubtype::Number(n) => {
                bounds(&mut m, &n.maximum, &n.minimum, J::Flt);
                po(&mut m, "multipleOf", n.multiple_of.map(J::Flt));
                "number"
            }
            DataSchemaSubtype::Integer(n) => {
                bounds(&mut m, &n.maximum, &n.minimum, |x| J::Int(x as i128));
                po(&mut m, "multipleOf", n.multiple_of.map(|x| J::Int(x.get() as i128)));
                "integer"
            }
            DataSchemaSubtype::String(x) => {
                po(&mut m, "minLength", u32j(x.min_length));
                po(&mut m, "maxLength", u32j(x.max_length));
                po(&mut m, "pattern", st(&x.pattern));
                po(&mut m, "contentEncoding", st(&x.content_encoding));
                po(&mut m, "contentMediaType", st(&x.content_media_type));
                "string"
            }
            DataSchemaSubtype::Object(o) => {
                po(&mut m, "properties", o.properties.as_ref().map(|x| map(x, ds)));
                po(&mut m, "required", ostrs(&o.required));
                o.other.observe(&mut m);
                "object"
            }
            DataSchemaSubtype::Array(a) => {
                po(
                    &mut m,
                    "items",
                    a.items.as_ref().map(|i| match i {
                        BoxedElemOrVec::Elem(e) => ds(e),
                        BoxedElemOrVec::Vec(v) => J::Arr(v.iter().map(ds).collect()),
                    }),
                );
                po(&mut m, "minItems", u32j(a.min_items));
                po(&mut m, "maxItems", u32j(a.max_items));
                a.other.observe(&mut m);
                "array"
            }
        };
        p(&mut m, "type", s(ty));
    }
    d.other.observe(&mut m);
    done(m)
}

pub fn link(l: &Link) -> J {
    let mut m = M::new();
    p(&mut m, "href", s(l.href.clone()));
    po(&mut m, "type", st(&l.ty));
    po(&mut m, "rel", st(&l.rel));
    po(&mut m, "anchor", st(&l.anchor));
    po(&mut m, "sizes", st(&l.sizes));
    po(
        &mut m,
        "hreflang",
        l.hreflang
            .as_ref()
            .map(|x| J::Arr(x.iter().map(|t| s(t.as_str())).collect())),
    );
    done(m)
}

pub fn op_name(o: FormOperation) -> &'static str {
    use FormOperation::*;
    match o {
        ReadProperty => "readproperty",
        WriteProperty => "writeproperty",
        ObserveProperty => "observeproperty",
        UnobserveProperty => "unobserveproperty",
        InvokeAction => "invokeaction",
        QueryAction => "queryaction",
        CancelAction => "cancelaction",
        SubscribeEvent => "subscribeevent",
        UnsubscribeEvent => "unsubscribeevent",
        ReadAllProperties => "readallproperties",
        WriteAllProperties => "writeallproperties",
        ReadMultipleProperties => "readmultipleproperties",
        WriteMultipleProperties => "writemultipleproperties",
        ObserveAllProperties => "observeallproperties",
        UnobserveAllProperties => "unobserveallproperties",
        SubscribeAllEvents => "subscribeallevents",
        UnsubscribeAllEvents => "unsubscribeallevents",
        QueryAllActions => "queryallactions",
    }
}

/// Takes every list of extension pieces apart and together again; gives the number of pieces.
pub fn apart<O: Obs>(t: &mut Thing<O>) -> Result<u64, String> {
    fn forms<O: Obs>(l: &mut [Form<O>]) -> Result<u64, String> {
        let mut n = 0;
        for f in l {
            n += f.other.apart()?;
            if let Some(r) = &mut f.response {
                n += r.other.apart()?;
            }
        }
        Ok(n)
    }
    fn inter<O: Obs>(i: &mut InteractionAffordance<O>) -> Result<u64, String> {
        let mut n = i.other.apart()? + forms(&mut i.forms)?;
        for d in i.uri_variables.iter_mut().flatten() {
            n += schema(d.1)?;
        }
        Ok(n)
    }
    fn schema<DS: Pc, AS: Pc, OS: Pc>(d: &mut DataSchema<DS, AS, OS>) -> Result<u64, String> {
        let mut n = d.other.apart()?;
        for x in d.one_of.iter_mut().flatten() {
            n += schema(x)?;
        }
        match &mut d.subtype {
            Some(DataSchemaSubtype::Object(o)) => {
                n += o.other.apart()?;
                for x in o.properties.iter_mut().flatten() {
                    n += schema(x.1)?;
                }
            }
            Some(DataSchemaSubtype::Array(a)) => {
                n += a.other.apart()?;
                match &mut a.items {
                    Some(BoxedElemOrVec::Elem(e)) => n += schema(e)?,
                    Some(BoxedElemOrVec::Vec(v)) => {
                        for x in v {
                            n += schema(x)?;
                        }
                    }
                    None => {}
                }
            }
            _ => {}
        }
        Ok(n)
    }
    let mut n = t.other.apart()?;
    n += forms(t.forms.as_deref_mut().unwrap_or_default())?;
    for (_, p) in t.properties.iter_mut().flatten() {
        n += p.other.apart()? + inter(&mut p.interaction)? + schema(&mut p.data_schema)?;
    }
    for (_, a) in t.actions.iter_mut().flatten() {
        n += a.other.apart()? + inter(&mut a.interaction)?;
        for d in [&mut a.input, &mut a.output].into_iter().flatten() {
            n += schema(d)?;
        }
    }
    for (_, e) in t.events.iter_mut().flatten() {
        n += e.other.apart()? + inter(&mut e.interaction)?;
        for d in [&mut e.subscription, &mut e.data, &mut e.cancellation, &mut e.data_response].into_iter().flatten() {
            n += schema(d)?;
        }
    }
    for m in [&mut t.uri_variables, &mut t.schema_definitions].into_iter().flatten() {
        for d in m {
            n += schema(d.1)?;
        }
    }
    Ok(n)
}

/// Makes members that both halves of a property have members of one of them only; gives how many.
pub fn halve<O: Obs>(t: &mut Thing<O>, seed: u64) -> u64 {
    let mut r = simcore::tape::Rng::new(seed);
    let mut n = 0;
    let mut v: Vec<_> = t.properties.iter_mut().flatten().collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    for (_, p) in v {
        let (a, b) = (&mut p.interaction, &mut p.data_schema);
        macro_rules! go {
            ($($f:ident),*) => { $(
                if a.$f.is_some() && a.$f == b.$f {
                    match r.below(3) {
                        0 => { a.$f = None; n += 1; }
                        1 => { b.$f = None; n += 1; }
                        _ => {}
                    }
                }
            )* };
        }
        go!(attype, title, titles, description, descriptions);
    }
    n
}

/// Copies everything of a Thing that can be copied; gives what the copies say.
pub fn copies<O: Obs>(t: &Thing<O>) -> Result<J, String> {
    let mut out = Vec::new();
    let mut add = |what: &str, of: J, copy: J| match j::diff(&of, &copy) {
        Some(d) => Err(format!("the copy of a {what} differs: {d:?}")),
        None => {
            out.push(copy);
            Ok(())
        }
    };
    fn forms<O: Obs>(l: &[Form<O>], add: &mut dyn FnMut(&str, J, J) -> Result<(), String>) -> Result<(), String> {
        l.iter().try_for_each(|f| add("form", form(f), form(&f.clone())))
    }
    fn inter<O: Obs>(
        i: &InteractionAffordance<O>,
        add: &mut dyn FnMut(&str, J, J) -> Result<(), String>,
    ) -> Result<(), String> {
        forms(&i.forms, add)?;
        let mut v: Vec<_> = i.uri_variables.iter().flatten().collect();
        v.sort_by_key(|x| x.0);
        v.into_iter().try_for_each(|(_, d)| add("URI variable", ds(d), ds(&d.clone())))
    }
    forms(t.forms.as_deref().unwrap_or_default(), &mut add)?;
    let mut v: Vec<_> = t.properties.iter().flatten().collect();
    v.sort_by_key(|x| x.0);
    for (_, p) in v {
        inter(&p.interaction, &mut add)?;
        add("data schema", ds(&p.data_schema), ds(&p.data_schema.clone()))?;
    }
    let mut v: Vec<_> = t.actions.iter().flatten().collect();
    v.sort_by_key(|x| x.0);
    for (_, a) in v {
        inter(&a.interaction, &mut add)?;
        for d in [&a.input, &a.output].into_iter().flatten() {
            add("data schema", ds(d), ds(&d.clone()))?;
        }
    }
    let mut v: Vec<_> = t.events.iter().flatten().collect();
    v.sort_by_key(|x| x.0);
    for (_, e) in v {
        inter(&e.interaction, &mut add)?;
        for d in [&e.subscription, &e.data, &e.cancellation, &e.data_response].into_iter().flatten() {
            add("data schema", ds(d), ds(&d.clone()))?;
        }
    }
    for l in t.links.iter().flatten() {
        add("link", link(l), link(&l.clone()))?;
    }
    let mut v: Vec<_> = t.security_definitions.iter().collect();
    v.sort_by_key(|x| x.0);
    for (_, d) in v {
        add("security definition", sec(d), sec(&d.clone()))?;
    }
    let mut v: Vec<_> = t.schema_definitions.iter().flatten().collect();
    v.sort_by_key(|x| x.0);
    for (_, d) in v {
        add("data schema", ds(d), ds(&d.clone()))?;
    }
    Ok(J::Arr(out))
}

pub fn version(v: &VersionInfo) -> J {
    let mut m = vec![("instance".to_string(), s(v.instance.clone()))];
    po(&mut m, "model", st(&v.model));
    done(m)
}
pub fn response<P: Pc>(r: &ExpectedResponse<P>) -> J {
    let mut m = vec![("contentType".to_string(), s(r.content_type.clone()))];
    r.other.observe(&mut m);
    done(m)
}
pub fn more(r: &AdditionalExpectedResponse) -> J {
    let mut m = vec![("success".to_string(), J::Bool(r.success))];
    po(&mut m, "contentType", st(&r.content_type));
    po(&mut m, "schema", st(&r.schema));
    done(m)
}

pub fn form<O: Obs>(f: &Form<O>) -> J {
    let mut m = M::new();
    if let DefaultedFormOperations::Custom(ops) = &f.op {
        p(&mut m, "op", J::Arr(ops.iter().map(|o| s(op_name(*o))).collect()));
    }
    p(&mut m, "href", s(f.href.clone()));
    po(&mut m, "contentType", st(&f.content_type));
    po(&mut m, "contentCoding", st(&f.content_coding));
    po(&mut m, "subprotocol", st(&f.subprotocol));
    po(&mut m, "security", ostrs(&f.security));
    po(&mut m, "scopes", ostrs(&f.scopes));
    po(
        &mut m,
        "response",
        f.response.as_ref().map(response),
    );
    po(
        &mut m,
        "additionalResponses",
        f.additional_responses.as_ref().map(|x| {
            J::Arr(x.iter().map(more).collect())
        }),
    );
    f.other.observe(&mut m);
    done(m)
}

fn location(l: &SecurityAuthenticationLocation) -> J {
    use SecurityAuthenticationLocation::*;
    s(match l {
        Header => "header",
        Query => "query",
        Body => "body",
        Cookie => "cookie",
        Uri => "uri",
    })
}

pub fn sec(x: &SecurityScheme) -> J {
    use KnownSecuritySchemeSubtype::*;
    let mut m = M::new();
    po(&mut m, "@type", ostrs(&x.attype));
    po(&mut m, "description", st(&x.description));
    po(&mut m, "descriptions", ml(&x.descriptions));
    po(&mut m, "proxy", st(&x.proxy));
    let scheme = match &x.subtype {
        SecuritySchemeSubtype::Known(k) => match k {
            NoSec => "nosec",
            Auto => "auto",
            Combo(ComboSecurityScheme::OneOf(n)) => {
                p(&mut m, "oneOf", strs(n));
                "combo"
            }
            Combo(ComboSecurityScheme::AllOf(n)) => {
                p(&mut m, "allOf", strs(n));
                "combo"
            }
            Basic(b) => {
                p(&mut m, "in", location(&b.location));
                po(&mut m, "name", st(&b.name));
                "basic"
            }
            Digest(b) => {
                p(
                    &mut m,
                    "qop",
                    s(match b.qop {
                        QualityOfProtection::Auth => "auth",
                        QualityOfProtection::AuthInt => "auth-int",
                    }),
                );
                p(&mut m, "in", location(&b.location));
                po(&mut m, "name", st(&b.name));
                "digest"
            }
            Bearer(b) => {
                po(&mut m, "authorization", st(&b.authorization));
                p(&mut m, "alg", s(b.alg.to_string()));
                p(&mut m, "format", s(b.format.to_string()));
                p(&mut m, "in", location(&b.location));
                po(&mut m, "name", st(&b.name));
                "bearer"
            }
            Psk(b) => {
                po(&mut m, "identity", st(&b.identity));
                "psk"
            }
            OAuth2(b) => {
                po(&mut m, "authorization", st(&b.authorization));
                po(&mut m, "token", st(&b.token));
                po(&mut m, "refresh", st(&b.refresh));
                po(&mut m, "scopes", ostrs(&b.scopes));
                p(&mut m, "flow", s(b.flow.clone()));
                "oauth2"
            }
            ApiKey(b) => {
                p(&mut m, "in", location(&b.location));
                po(&mut m, "name", st(&b.name));
                "apikey"
            }
        },
        SecuritySchemeSubtype::Unknown(u) => {
            match J::from_value(&u.data).sorted() {
                J::Obj(o) => m.extend(o),
                J::Null => {}
                other => p(&mut m, "(data)", other),
            }
            u.scheme.as_str()
        }
    };
    p(&mut m, "scheme", s(scheme));
    done(m)
}
