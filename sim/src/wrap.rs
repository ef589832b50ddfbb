//! Messages that carry descriptions inside of something else.

use std::collections::BTreeMap;

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;

use simcore::j::{s, J};

use crate::{any::Src, parts::read};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrap {
    /// A list of descriptions.
    List,
    /// Descriptions by name.
    Map,
    /// A page of a listing.
    Page,
    /// The members of a description next to those of its registration.
    Record,
    /// A list of such records.
    Records,
    /// A problem, one description or several, told apart by what they look like.
    Either,
    EitherMany,
    /// A notification, told apart by a member inside of the description.
    Event,
    /// A notification with the description as a member.
    Adjacent,
}
pub const WRAPS: &[Wrap] = &[
    Wrap::List,
    Wrap::Map,
    Wrap::Page,
    Wrap::Record,
    Wrap::Records,
    Wrap::Either,
    Wrap::EitherMany,
    Wrap::Event,
    Wrap::Adjacent,
];

impl Wrap {
    /// Just one description?
    pub fn single(self) -> bool {
        matches!(self, Wrap::Record | Wrap::Either | Wrap::Event | Wrap::Adjacent)
    }
    /// Is one list of arrays and objects deeper than its descriptions.
    pub const LEVELS: usize = 3;
}

#[derive(Serialize, Deserialize)]
struct Page<X> {
    total: u64,
    items: Vec<X>,
    next: Option<String>,
}
#[derive(Serialize, Deserialize)]
struct Record<X> {
    registration: Value,
    #[serde(flatten)]
    thing: X,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Either<X> {
    Problem {
        #[serde(rename = "problem#status")]
        status: u16,
    },
    One(X),
    Many(Vec<X>),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "event#type")]
enum Event<X> {
    Deleted { name: String },
    Created(X),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "event", content = "td")]
enum Adjacent<X> {
    Deleted { name: String },
    Created(X),
}

fn registration() -> Value {
    serde_json::json!({"created": "2024-01-01T00:00:00Z", "ttl": 3600})
}
fn name(i: usize) -> String {
    format!("urn:thing:{i}")
}

pub fn write<X: Serialize>(wrap: Wrap, mut l: Vec<X>) -> serde_json::Result<Vec<u8>> {
    fn done<T: Serialize>(x: T) -> serde_json::Result<Vec<u8>> {
        serde_json::to_vec(&x)
    }
    match wrap {
        Wrap::List => done(l),
        Wrap::Map => done(l.into_iter().enumerate().map(|(i, x)| (name(i), x)).collect::<BTreeMap<_, _>>()),
        Wrap::Page => done(Page { total: l.len() as u64, items: l, next: None }),
        Wrap::Record => done(Record { registration: registration(), thing: l.remove(0) }),
        Wrap::Records => {
            done(l.into_iter().map(|thing| Record { registration: registration(), thing }).collect::<Vec<_>>())
        }
        Wrap::Either => done(Either::One(l.remove(0))),
        Wrap::EitherMany => done(Either::Many(l)),
        Wrap::Event => done(Event::Created(l.remove(0))),
        Wrap::Adjacent => done(Adjacent::Created(l.remove(0))),
    }
}

/// The descriptions of a message, or nothing if it is a message of another kind.
pub fn unwrap<X: DeserializeOwned>(wrap: Wrap, src: Src) -> serde_json::Result<Option<Vec<X>>> {
    Ok(match wrap {
        Wrap::List => Some(read(src)?),
        Wrap::Map => Some(read::<BTreeMap<String, X>>(src)?.into_values().collect()),
        Wrap::Page => Some(read::<Page<X>>(src)?.items),
        Wrap::Record => Some(vec![read::<Record<X>>(src)?.thing]),
        Wrap::Records => Some(read::<Vec<Record<X>>>(src)?.into_iter().map(|x| x.thing).collect()),
        Wrap::Either | Wrap::EitherMany => match read(src)? {
            Either::Problem { .. } => None,
            Either::One(x) if wrap == Wrap::Either => Some(vec![x]),
            Either::Many(l) if wrap == Wrap::EitherMany => Some(l),
            _ => None,
        },
        Wrap::Event => match read(src)? {
            Event::Created(x) => Some(vec![x]),
            Event::Deleted { .. } => None,
        },
        Wrap::Adjacent => match read(src)? {
            Adjacent::Created(x) => Some(vec![x]),
            Adjacent::Deleted { .. } => None,
        },
    })
}

/// The message another implementation makes of documents.
pub fn around(wrap: Wrap, docs: &[J]) -> J {
    let reg = || ("registration".to_string(), J::from_value(&registration()));
    let record = |d: &J| {
        let J::Obj(m) = d else { panic!("harness: no object") };
        let mut m = m.clone();
        let at = m.len() / 2;
        m.insert(at, reg());
        J::Obj(m)
    };
    let o = |l: Vec<(&str, J)>| J::Obj(l.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    match wrap {
        Wrap::List | Wrap::EitherMany => J::Arr(docs.to_vec()),
        Wrap::Map => J::Obj(docs.iter().enumerate().map(|(i, d)| (name(i), d.clone())).collect()),
        Wrap::Page => o(vec![
            ("total", J::Int(docs.len() as i128)),
            ("items", J::Arr(docs.to_vec())),
            ("next", J::Null),
        ]),
        Wrap::Record => record(&docs[0]),
        Wrap::Records => J::Arr(docs.iter().map(record).collect()),
        Wrap::Either => docs[0].clone(),
        Wrap::Event => {
            let J::Obj(m) = &docs[0] else { panic!("harness: no object") };
            let mut m = m.clone();
            m.push(("event#type".to_string(), s("Created")));
            J::Obj(m)
        }
        Wrap::Adjacent => o(vec![("event", s("Created")), ("td", docs[0].clone())]),
    }
}
