//! A Thing of any extension set, behind one interface.

use std::{
    any::Any,
    io::{Read, Write},
};

use serde_json::Value;
use wot_td::{builder::Error as BuildError, hlist::Nil, Thing};

use simcore::gram::Set;
use simcore::j::J;
use crate::{
    drive::{self, Call, St},
    exts::*,
    observe, parts,
    wrap::{self, Wrap},
};

pub trait AnyThing: Send + Sync {
    fn set(&self) -> Set;
    fn observe(&self) -> J;
    fn write(&self, w: &mut dyn Write, pretty: bool) -> serde_json::Result<()>;
    fn to_value(&self) -> serde_json::Result<Value>;
    fn same(&self, other: &dyn AnyThing) -> bool;
    fn as_any(&self) -> &dyn Any;
    /// Takes pieces out and writes each on its own, and the rest.
    fn split(self: Box<Self>, how: parts::How) -> Result<(Vec<parts::Part>, u64), String>;
    /// Where there are pieces.
    fn places(&mut self) -> Vec<parts::Place>;
    /// Is this text, read as a piece, the one in that place?
    fn agrees(&mut self, place: &parts::Place, src: Src) -> serde_json::Result<bool>;
    fn debug(&self) -> String;
    /// Copies all parts that can be copied.
    fn copies(&self) -> Result<J, String>;
    /// Takes members from one half of properties that the other half has too.
    fn halve(&mut self, seed: u64) -> u64;
    /// Takes all lists of extension pieces apart and together again.
    fn apart(&mut self) -> Result<u64, String>;
}

pub enum Src<'a> {
    Slice(&'a [u8]),
    Reader(&'a mut dyn Read),
    Value(Value),
}

pub type Dyn = Box<dyn AnyThing>;

macro_rules! sets {
    ($($v:ident $t:ty),*) => {
        $(
            impl AnyThing for Thing<$t> {
                fn set(&self) -> Set { Set::$v }
                fn observe(&self) -> J { observe::thing(self) }
                fn write(&self, w: &mut dyn Write, pretty: bool) -> serde_json::Result<()> {
                    if pretty {
                        serde_json::to_writer_pretty(w, self)
                    } else {
                        serde_json::to_writer(w, self)
                    }
                }
                fn to_value(&self) -> serde_json::Result<Value> { serde_json::to_value(self) }
                fn same(&self, other: &dyn AnyThing) -> bool {
                    other.as_any().downcast_ref::<Self>().is_some_and(|o| self == o)
                }
                fn as_any(&self) -> &dyn Any { self }
                fn split(self: Box<Self>, how: parts::How) -> Result<(Vec<parts::Part>, u64), String> {
                    parts::split(*self, how)
                }
                fn places(&mut self) -> Vec<parts::Place> { parts::places(self) }
                fn agrees(&mut self, place: &parts::Place, src: Src) -> serde_json::Result<bool> {
                    parts::agrees(self, place, src)
                }
                fn debug(&self) -> String { format!("{self:?}") }
                fn copies(&self) -> Result<J, String> { observe::copies(self) }
                fn halve(&mut self, seed: u64) -> u64 { observe::halve(self, seed) }
                fn apart(&mut self) -> Result<u64, String> { observe::apart(self) }
            }
        )*
        pub fn parse(set: Set, src: Src) -> serde_json::Result<Dyn> {
            match set {
                $( Set::$v => {
                    let t: Thing<$t> = match src {
                        Src::Slice(b) => serde_json::from_slice(b)?,
                        Src::Reader(r) => serde_json::from_reader(r)?,
                        Src::Value(v) => serde_json::from_value(v)?,
                    };
                    Ok(Box::new(t))
                } )*
                Set::All => panic!("harness: no reader knows everything"),
            }
        }
        pub fn keeper(set: Set) -> Box<dyn parts::Keeper> {
            match set {
                $( Set::$v => Box::<parts::Gathered<$t>>::default(), )*
                Set::All => panic!("harness: no reader knows everything"),
            }
        }
        pub fn parse_message(set: Set, wrap: Wrap, src: Src) -> serde_json::Result<Option<Vec<Dyn>>> {
            match set {
                $( Set::$v => Ok(wrap::unwrap::<Thing<$t>>(wrap, src)?
                    .map(|l| l.into_iter().map(|t| Box::new(t) as Dyn).collect())), )*
                Set::All => panic!("harness: no reader knows everything"),
            }
        }
        pub fn write_message(set: Set, wrap: Wrap, l: &[&dyn AnyThing]) -> serde_json::Result<Vec<u8>> {
            match set {
                $( Set::$v => {
                    let l: Vec<&Thing<$t>> = l
                        .iter()
                        .map(|t| t.as_any().downcast_ref().expect("harness: another set"))
                        .collect();
                    wrap::write(wrap, l)
                } )*
                Set::All => panic!("harness: no reader knows everything"),
            }
        }
        /// Reads descriptions that follow each other on one stream, up to the first error.
        pub fn parse_stream(set: Set, r: &mut dyn Read) -> Vec<serde_json::Result<Dyn>> {
            let mut out = Vec::new();
            match set {
                $( Set::$v => {
                    for x in serde_json::Deserializer::from_reader(r).into_iter::<Thing<$t>>() {
                        let bad = x.is_err();
                        out.push(x.map(|t| Box::new(t) as Dyn));
                        if bad {
                            break;
                        }
                    }
                } )*
                Set::All => panic!("harness: no reader knows everything"),
            }
            out
        }
    };
}
sets!(Nil Nil, A A, E1 E1, E2 E2, Http Http, Coap Coap, Mqtt Mqtt, EP EP);

macro_rules! builders {
    ($($v:ident $t:ty),*) => {
        pub fn build(set: Set, title: &str, ext: &J, calls: &[Call], st: &mut St, between: &mut dyn FnMut())
            -> Result<Dyn, BuildError> {
            match set {
                $( Set::$v => drive::build::<$t>(title, ext, calls, st, between).map(|t| Box::new(t) as Dyn), )*
                _ => panic!("harness: no builder for {set:?}"),
            }
        }
    };
}
builders!(Nil Nil, E2 E2, EP EP);

pub const BUILDERS: &[Set] = &[Set::Nil, Set::E2, Set::EP];
