//! The extensions the simulated nodes use, and what is common to all extension pieces.

use std::cell::RefCell;

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use wot_td::{
    extend::{Extend, ExtendableThing},
    hlist::{Cons, HListMut, HListRef, Nil, NonEmptyHList},
    protocol::{
        coap::{self, CoapProtocol},
        http::{self, HttpProtocol},
        mqtt::{self, MqttProtocol},
    },
};

use simcore::j::{s, J};

/// An extension piece: what it says, and how to make one that says what a document says.
pub trait Pc: Sized + Clone {
    fn observe(&self, out: &mut Vec<(String, J)>);
    fn from_j(doc: &J) -> Self;
    /// Takes a list of pieces apart in every way there is and puts it together again; gives the
    /// number of pieces, or what is not as it was.
    fn apart(&mut self) -> Result<u64, String> {
        Ok(0)
    }
}

fn says<P: Pc>(p: &P) -> String {
    let mut out = Vec::new();
    p.observe(&mut out);
    J::Obj(out).text()
}
fn at<T>(x: &T) -> usize {
    x as *const T as usize
}

impl Pc for Nil {
    fn observe(&self, _: &mut Vec<(String, J)>) {}
    fn from_j(_: &J) -> Self {
        Nil
    }
}
impl Pc for () {
    fn observe(&self, _: &mut Vec<(String, J)>) {}
    fn from_j(_: &J) -> Self {}
}
macro_rules! pc_list {
    ($l:ty: $($g:ident $($p:ident).+),*) => {
        impl<$($g: Pc + Default),*> Pc for $l {
            fn observe(&self, out: &mut Vec<(String, J)>) {
                $( self.$($p).+.observe(out); )*
            }
            fn from_j(doc: &J) -> Self {
                let mut x = Self::default();
                $( x.$($p).+ = $g::from_j(doc); )*
                x
            }
            fn apart(&mut self) -> Result<u64, String> {
                let whole = |x: &Self| vec![$( says(&x.$($p).+) ),*];
                let before = whole(self);
                let ats = vec![$( at(&self.$($p).+) ),*];
                let n = ats.len();
                let eq = |what: &str, got: &[usize], want: &[usize]| {
                    if got == want {
                        Ok(())
                    } else {
                        Err(format!("{what}: the elements of a list are others"))
                    }
                };
                let back: Vec<usize> = ats.iter().rev().copied().collect();
                let mut last_first = ats.clone();
                last_first.rotate_right(1);
                // References to the elements.
                let r = (&*self).to_ref();
                eq("to_ref", &[$( at(r.$($p).+) ),*], &ats)?;
                let v = r.reverse();
                eq("reverse of references", &[$( at(v.$($p).+) ),*], &back)?;
                let (last, init) = r.split_last();
                let v = init.ext(last);
                eq("split_last of references", &[$( at(v.$($p).+) ),*], &last_first)?;
                let (head, tail) = r.split_head();
                let v = tail.ext(head);
                eq("split_head of references", &[$( at(v.$($p).+) ),*], &ats)?;
                // Mutable ones.
                let r = self.to_mut();
                eq("to_mut", &[$( at(r.$($p).+) ),*], &ats)?;
                let v = self.to_mut().reverse();
                eq("reverse of mutable references", &[$( at(v.$($p).+) ),*], &back)?;
                let (last, init) = self.to_mut().split_last();
                let v = init.ext(last);
                eq("split_last of mutable references", &[$( at(v.$($p).+) ),*], &last_first)?;
                let mut i = 0;
                $(
                    let mine = std::mem::take(self.to_mut().$($p).+);
                    let mut want = before.clone();
                    want[i] = says(&$g::default());
                    if says(&mine) != before[i] || whole(self) != want {
                        return Err(format!("element {i} of {n} taken: {} remains of {before:?}", whole(self).join(" ")));
                    }
                    *self.to_mut().$($p).+ = mine;
                    i += 1;
                )*
                let _ = i;
                // The values.
                let (head, tail) = std::mem::take(self).split_head();
                *self = tail.ext(head);
                if whole(self) != before {
                    return Err(format!("split_head gives {} of {before:?}", whole(self).join(" ")));
                }
                let v = std::mem::take(self).reverse();
                let mut got = vec![$( says(&v.$($p).+) ),*];
                got.reverse();
                *self = v.reverse();
                if got != before || whole(self) != before {
                    return Err(format!("reverse gives {got:?} of {before:?}"));
                }
                let (last, init) = self.clone().split_last();
                let v = init.ext(last);
                let mut got = vec![$( says(&v.$($p).+) ),*];
                got.rotate_left(1);
                if got != before {
                    return Err(format!("split_last gives {got:?} of {before:?}"));
                }
                Ok(n as u64)
            }
        }
    };
}
pc_list!(Cons<T, Nil>: T head);
pc_list!(Cons<T, Cons<U, Nil>>: T head, U tail.head);
pc_list!(Cons<T, Cons<U, Cons<V, Nil>>>: T head, U tail.head, V tail.tail.head);

// ---------------------------------------------------------------- hooks in extension code

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HookAt {
    Ser,
    De,
    Clone,
}

type Hook = Box<dyn FnMut(HookAt, &str) -> bool>;

thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// The code of an extension runs inside the library's; the simulator owns what it does there
/// (yield, fail). `f` gives false to make the extension fail.
pub fn with_hook<R>(f: Hook, body: impl FnOnce() -> R) -> R {
    let old = HOOK.with(|h| h.borrow_mut().replace(f));
    let r = crate::seam::catching(body);
    HOOK.with(|h| *h.borrow_mut() = old);
    match r {
        Ok(r) => r,
        Err(m) => panic!("{m}"),
    }
}
pub fn set_hook(f: Option<Hook>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}
fn call_hook(at: HookAt, v: &str) -> bool {
    let taken = HOOK.with(|h| h.borrow_mut().take());
    let Some(mut f) = taken else { return true };
    let ok = f(at, v);
    HOOK.with(|h| *h.borrow_mut() = Some(f));
    ok
}

/// A string of an extension whose (de)serialisation passes through the simulator.
#[derive(Debug, PartialEq, Eq, Default)]
pub struct Hk(pub String);

pub const HOOK_MSG: &str = "extension failed on purpose";

impl Clone for Hk {
    fn clone(&self) -> Self {
        call_hook(HookAt::Clone, &self.0);
        Hk(self.0.clone())
    }
}
impl Serialize for Hk {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        if !call_hook(HookAt::Ser, &self.0) {
            return Err(serde::ser::Error::custom(HOOK_MSG));
        }
        ser.serialize_str(&self.0)
    }
}
impl<'de> Deserialize<'de> for Hk {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        let v = String::deserialize(de)?;
        if !call_hook(HookAt::De, &v) {
            return Err(serde::de::Error::custom(HOOK_MSG));
        }
        Ok(Hk(v))
    }
}

// ---------------------------------------------------------------- test extensions A and B

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Sub {
    pub k: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub l: Option<Vec<i64>>,
}

fn opt_str(d: &J, n: &str) -> Option<String> {
    d.get(n).and_then(|x| x.str()).map(str::to_string)
}

macro_rules! piece {
    ($($name:ident $s:literal $i:literal $o:literal $h:literal;)*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
        pub struct $name {
            #[serde(rename = $s, default, skip_serializing_if = "Option::is_none")]
            pub s: Option<String>,
            #[serde(rename = $i, default, skip_serializing_if = "Option::is_none")]
            pub i: Option<i64>,
            #[serde(rename = $o, default, skip_serializing_if = "Option::is_none")]
            pub o: Option<Sub>,
            #[serde(rename = $h, default, skip_serializing_if = "Option::is_none")]
            pub h: Option<Hk>,
        }
        impl Pc for $name {
            fn observe(&self, out: &mut Vec<(String, J)>) {
                if let Some(x) = &self.s { out.push(($s.into(), s(x.clone()))); }
                if let Some(x) = self.i { out.push(($i.into(), J::Int(x as i128))); }
                if let Some(x) = &self.o {
                    let mut m = vec![("k".to_string(), s(x.k.clone()))];
                    if let Some(l) = &x.l {
                        m.push(("l".into(), J::Arr(l.iter().map(|v| J::Int(*v as i128)).collect())));
                    }
                    out.push(($o.into(), J::Obj(m)));
                }
                if let Some(x) = &self.h { out.push(($h.into(), s(x.0.clone()))); }
            }
            fn from_j(d: &J) -> Self {
                $name {
                    s: opt_str(d, $s),
                    i: d.get($i).map(|x| x.int() as i64),
                    o: d.get($o).map(|o| Sub {
                        k: opt_str(o, "k").unwrap_or_default(),
                        l: o.get("l").map(|l| l.arr().iter().map(|x| x.int() as i64).collect()),
                    }),
                    h: opt_str(d, $h).map(Hk),
                }
            }
        }
    )* };
}
piece! {
    A "a:thS" "a:thI" "a:thO" "a:thH";
    AInter "a:inS" "a:inI" "a:inO" "a:inH";
    AProp "a:prS" "a:prI" "a:prO" "a:prH";
    AAction "a:acS" "a:acI" "a:acO" "a:acH";
    AEvent "a:evS" "a:evI" "a:evO" "a:evH";
    AForm "a:foS" "a:foI" "a:foO" "a:foH";
    AResp "a:reS" "a:reI" "a:reO" "a:reH";
    ADs "a:dsS" "a:dsI" "a:dsO" "a:dsH";
    AObj "a:obS" "a:obI" "a:obO" "a:obH";
    AArr "a:arS" "a:arI" "a:arO" "a:arH";
    B "b:thS" "b:thI" "b:thO" "b:thH";
    BInter "b:inS" "b:inI" "b:inO" "b:inH";
    BProp "b:prS" "b:prI" "b:prO" "b:prH";
    BAction "b:acS" "b:acI" "b:acO" "b:acH";
    BForm "b:foS" "b:foI" "b:foO" "b:foH";
    BDs "b:dsS" "b:dsI" "b:dsO" "b:dsH";
    BObj "b:obS" "b:obI" "b:obO" "b:obH";
}
impl ExtendableThing for A {
    type InteractionAffordance = AInter;
    type PropertyAffordance = AProp;
    type ActionAffordance = AAction;
    type EventAffordance = AEvent;
    type Form = AForm;
    type ExpectedResponse = AResp;
    type DataSchema = ADs;
    type ObjectSchema = AObj;
    type ArraySchema = AArr;
}
impl ExtendableThing for B {
    type InteractionAffordance = BInter;
    type PropertyAffordance = BProp;
    type ActionAffordance = BAction;
    type EventAffordance = ();
    type Form = BForm;
    type ExpectedResponse = ();
    type DataSchema = BDs;
    type ObjectSchema = BObj;
    type ArraySchema = ();
}

// ---------------------------------------------------------------- the protocol bindings

macro_rules! empty_piece {
    ($($t:ty),*) => { $(
        impl Pc for $t {
            fn observe(&self, _: &mut Vec<(String, J)>) {}
            fn from_j(_: &J) -> Self { Self {} }
        }
    )* };
}
empty_piece!(HttpProtocol, CoapProtocol, MqttProtocol);

macro_rules! names {
    ($f:ident $g:ident $t:ty { $($v:ident = $n:literal),* }) => {
        fn $f(x: $t) -> J { s(match x { $(<$t>::$v => $n),* }) }
        fn $g(x: &J) -> Option<$t> { match x.str()? { $($n => Some(<$t>::$v),)* _ => None } }
    };
}
names!(http_m http_m_from http::Method { Get = "GET", Put = "PUT", Post = "POST", Delete = "DELETE", Patch = "PATCH" });
names!(coap_m coap_m_from coap::Method { Get = "GET", Put = "PUT", Post = "POST", Delete = "DELETE", Patch = "PATCH", Fetch = "FETCH", Ipatch = "iPATCH" });
names!(mqtt_p mqtt_p_from mqtt::ControlPacket { Publish = "mqv:publish", Subscribe = "mqv:subscribe", Unsubscribe = "mqv:unsubscribe" });
names!(mqtt_q mqtt_q_from mqtt::QoS { AtMostOnce = "quality:0", AtLeastOnce = "quality:1", ExactlyOnce = "quality:2" });

fn put(out: &mut Vec<(String, J)>, n: &str, v: Option<J>) {
    if let Some(v) = v {
        out.push((n.into(), v));
    }
}

impl Pc for http::Form {
    fn observe(&self, out: &mut Vec<(String, J)>) {
        put(out, "htv:methodName", self.method_name.map(http_m));
    }
    fn from_j(d: &J) -> Self {
        http::Form {
            method_name: d.get("htv:methodName").and_then(http_m_from),
        }
    }
}
impl Pc for http::Response {
    fn observe(&self, out: &mut Vec<(String, J)>) {
        let h = self
            .headers
            .iter()
            .map(|h| {
                let mut m = Vec::new();
                put(&mut m, "htv:fieldName", h.field_name.clone().map(s));
                put(&mut m, "htv:fieldValue", h.field_value.clone().map(s));
                J::Obj(m)
            })
            .collect();
        out.push(("htv:headers".into(), J::Arr(h)));
        put(
            out,
            "htv:statusCodeValue",
            self.status_code_value.map(|x| J::Int(x as i128)),
        );
    }
    fn from_j(d: &J) -> Self {
        http::Response {
            headers: d
                .get("htv:headers")
                .map(|h| {
                    h.arr()
                        .iter()
                        .map(|h| http::MessageHeader {
                            field_name: opt_str(h, "htv:fieldName"),
                            field_value: opt_str(h, "htv:fieldValue"),
                        })
                        .collect()
                })
                .unwrap_or_default(),
            status_code_value: d.get("htv:statusCodeValue").map(|x| x.int() as usize),
        }
    }
}

fn block(b: &coap::BlockWiseTransferParameters) -> J {
    let mut m = Vec::new();
    put(&mut m, "cov:block2Size", b.block2_size.map(|x| J::Int(x as u16 as i128)));
    put(&mut m, "cov:block1Size", b.block1_size.map(|x| J::Int(x as u16 as i128)));
    J::Obj(m)
}
fn size_from(x: &J) -> Option<coap::BlockSize> {
    use coap::BlockSize::*;
    Some(match x.int() {
        16 => Size16,
        32 => Size32,
        64 => Size64,
        128 => Size128,
        256 => Size256,
        512 => Size512,
        1024 => Size1024,
        _ => return None,
    })
}
fn block_from(d: &J) -> coap::BlockWiseTransferParameters {
    coap::BlockWiseTransferParameters {
        block2_size: d.get("cov:block2Size").and_then(size_from),
        block1_size: d.get("cov:block1Size").and_then(size_from),
    }
}
impl Pc for coap::Form {
    fn observe(&self, out: &mut Vec<(String, J)>) {
        put(out, "cov:method", self.method.map(coap_m));
        put(out, "cov:blockwise", self.blockwise.as_ref().map(block));
        put(out, "cov:qblockwise", self.qblockwise.as_ref().map(block));
        put(out, "cov:hopLimit", self.hop_limit.map(|x| J::Int(x as i128)));
        put(out, "cov:accept", self.accept.map(|x| J::Int(x as i128)));
        put(
            out,
            "cov:contentFormat",
            self.content_format.map(|x| J::Int(x as i128)),
        );
    }
    fn from_j(d: &J) -> Self {
        coap::Form {
            method: d.get("cov:method").and_then(coap_m_from),
            blockwise: d.get("cov:blockwise").map(block_from),
            qblockwise: d.get("cov:qblockwise").map(block_from),
            hop_limit: d.get("cov:hopLimit").map(|x| x.int() as u8),
            accept: d.get("cov:accept").map(|x| x.int() as u16),
            content_format: d.get("cov:contentFormat").map(|x| x.int() as u16),
        }
    }
}
impl Pc for coap::ExpectedResponse {
    fn observe(&self, out: &mut Vec<(String, J)>) {
        put(
            out,
            "cov:contentFormat",
            self.content_format.map(|x| J::Int(x as i128)),
        );
    }
    fn from_j(d: &J) -> Self {
        coap::ExpectedResponse {
            content_format: d.get("cov:contentFormat").map(|x| x.int() as u16),
        }
    }
}
impl Pc for mqtt::Form {
    fn observe(&self, out: &mut Vec<(String, J)>) {
        out.push(("mqv:retain".into(), J::Bool(self.retain)));
        put(out, "mqv:controlPacket", self.control_packet.map(mqtt_p));
        put(out, "mqv:qos", self.qos.map(mqtt_q));
        put(out, "mqv:topic", self.topic.clone().map(s));
        out.push((
            "mqv:filter".into(),
            J::Arr(self.filter.iter().map(|x| s(x.clone())).collect()),
        ));
    }
    fn from_j(d: &J) -> Self {
        mqtt::Form {
            retain: d.get("mqv:retain").is_some_and(|x| x.bool()),
            control_packet: d.get("mqv:controlPacket").and_then(mqtt_p_from),
            qos: d.get("mqv:qos").and_then(mqtt_q_from),
            topic: opt_str(d, "mqv:topic"),
            filter: d
                .get("mqv:filter")
                .map(|x| x.arr().iter().filter_map(|x| x.str()).map(String::from).collect())
                .unwrap_or_default(),
        }
    }
}

pub type E1 = Cons<A, Nil>;
pub type E2 = Cons<B, Cons<A, Nil>>;
pub type Http = Cons<HttpProtocol, Nil>;
pub type Coap = Cons<CoapProtocol, Nil>;
pub type Mqtt = Cons<MqttProtocol, Nil>;
pub type EP = Cons<MqttProtocol, Cons<CoapProtocol, Cons<HttpProtocol, Nil>>>;

#[allow(dead_code)]
pub fn hook_alive() -> bool {
    HOOK.with(|h| h.borrow().is_some())
}
