//! Generators: descriptions a producer can build, as builder calls, and documents another
//! implementation may publish. Both are driven by the vocabulary tables and by the run's tape.

use crate::{
    Call,
    gram::*,
    j::{s, J},
    tape::{Rng, Tape},
};

pub const THING_OPS: &[&str] = &[
    "readallproperties",
    "writeallproperties",
    "readmultipleproperties",
    "writemultipleproperties",
    "observeallproperties",
    "unobserveallproperties",
    "subscribeallevents",
    "unsubscribeallevents",
    "queryallactions",
];
pub const PROP_OPS: &[&str] = &[
    "readproperty",
    "writeproperty",
    "observeproperty",
    "unobserveproperty",
];
pub const ACTION_OPS: &[&str] = &["invokeaction", "queryaction", "cancelaction"];
pub const EVENT_OPS: &[&str] = &["subscribeevent", "unsubscribeevent"];

pub fn ops_of(n: N) -> &'static [&'static str] {
    match n {
        N::Prop => PROP_OPS,
        N::Action => ACTION_OPS,
        N::Event => EVENT_OPS,
        _ => THING_OPS,
    }
}

const NASTY: &[&str] = &[
    "",
    " ",
    "null",
    "true",
    "0",
    "\"",
    "\\",
    "\\u0000",
    "a\nb\tc",
    "\u{0}\u{1f}\u{7f}",
    "\u{2028}\u{feff}",
    "日本語 ñ",
    "😀𝄞",
    "{\"a\":1}",
    "[",
    "//",
    "$serde",
];
/// What such members usually look like.
const USUAL: &[&str] = &[
    "https://example.com/things/lamp",
    "HTTP://Example.COM:80/A%20b/../c/",
    "coap://[2001:db8::1]:5683/x{?unit,step}",
    "mqtt://broker/a/+/#",
    "urn:uuid:0804d572-cce8-422a-bb7c-4412fcd56f06",
    "./relative?q=1&r=%7B%7D#frag",
    "application/json",
    "application/senml+json; charset=utf-8",
    "text/plain;charset=\"utf-8\"",
    "saref:LightSwitch",
    "tm:ThingModel",
    "Thing",
    "16x16 32x32",
    "icon",
    "alternate",
    "subscription",
    "longpoll",
    "gzip",
    "date-time",
    "om2:degree_Celsius",
    "^[a-z]+\\.(\\d{1,3})$",
    " padded ",
    "trailing/",
    "UPPER",
    "e\u{301}",
    "\u{e9}",
    "a,b;c d",
    "'single'",
    "</script>",
    "basic",
    "body",
    "auto",
    "undefined",
    "default",
    "1.0",
    "-1",
    "1e3",
];
const NASTY_KEYS: &[&str] = &[
    "", "type", "title", "a/b", "~0", "forms", "op", "\"", "日本", "const", "scheme", "items", "x y", "@type",
    "null", "required",
];

/// What a part can be repeated as.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ds { uri: bool },
    Form(N),
    Node(N),
}

fn size(v: &J) -> usize {
    1 + match v {
        J::Arr(a) => a.iter().map(size).sum(),
        J::Obj(m) => m.iter().map(|(_, x)| size(x)).sum(),
        _ => 0,
    }
}

pub struct G<'t> {
    pub t: &'t mut Tape,
    pub set: Set,
    /// Only what the builder can express.
    pub built: bool,
    /// Which extensions' members foreign documents carry.
    pub exts: Set,
    budget: i64,
    dens: u64,
    odd: bool,
    uniq: u64,
    /// Out of 16: how often a list is long.
    bulk: u64,
    /// Strings that were used before.
    pool: Vec<String>,
    /// Whether names, numbers and whole parts are mostly those of other places.
    echo: bool,
    /// Small parts that are there already, by kind.
    parts: Vec<(Kind, J)>,
    pub secs: Vec<String>,
    pub schemas: Vec<String>,
}

impl<'t> G<'t> {
    pub fn new(t: &'t mut Tape, set: Set, built: bool) -> Self {
        // Density: how many of the optional members an element has, out of 16.
        let dens = *t.pick(&[4, 2, 6, 9, 12, 1]);
        let odd = t.chance(1, 3);
        let budget = *t.pick(&[40, 12, 80, 24, 160]);
        let bulk = match t.draw(48) {
            36..=41 => 1,
            42..=46 => 3,
            47 => 5,
            _ => 0,
        };
        let echo = t.chance(1, 6);
        let exts = if built {
            set
        } else {
            *t.pick(&[set, set, Set::All, Set::EP, Set::E2, Set::Nil])
        };
        G {
            t,
            set,
            built,
            exts,
            budget,
            dens,
            odd,
            uniq: 0,
            bulk,
            pool: Vec::new(),
            echo,
            parts: Vec::new(),
            secs: Vec::new(),
            schemas: Vec::new(),
        }
    }

    pub fn opt(&mut self) -> bool {
        let d = self.dens;
        self.t.chance(d, 16)
    }
    pub fn uniq(&mut self) -> u64 {
        self.uniq += 1;
        self.uniq
    }
    /// A number that is used once, in no order.
    fn mark(&mut self) -> u64 {
        if self.echo && self.t.chance(3, 4) {
            return self.t.draw(4);
        }
        let n = self.uniq();
        n * 617 % 1009 + n / 1009 * 1009
    }
    fn long(&mut self) -> String {
        let far = [65_535usize, 65_536, 65_540, 40_000];
        let n = if self.t.chance(1, 400) { *self.t.pick(&far) } else { 0 };
        let n = n.max(*self.t.pick(&[16usize, 15, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4097]));
        let unit = *self.t.pick(&["x", "ab ", "é", "日", "😀", "\"", "\n"]);
        let mut x = format!("s{}", self.mark());
        while x.len() < n {
            x.push_str(unit);
        }
        x
    }
    /// Almost what was used before.
    fn twin(&mut self) -> String {
        let x = self.t.pick(&self.pool).clone();
        match self.t.draw(8) {
            0 => x.to_uppercase(),
            1 => format!("{x} "),
            2 => format!(" {x}"),
            3 => format!("{x}{x}"),
            4 => x.chars().rev().collect(),
            5 => x.chars().skip(1).collect(),
            6 => format!("{x}/"),
            _ => x.to_lowercase(),
        }
    }
    pub fn string(&mut self) -> String {
        if !self.odd {
            return format!("s{}", self.mark());
        }
        let x = self.odd_string();
        if self.pool.len() < 64 {
            self.pool.push(x.clone());
        }
        x
    }
    fn odd_string(&mut self) -> String {
        if self.echo && self.t.chance(1, 8) {
            return self.t.pick(&["", "s0", "a"]).to_string();
        }
        match self.t.draw(16) {
            11 => self.long(),
            12 | 13 => self.t.pick(USUAL).to_string(),
            14 if !self.pool.is_empty() => self.t.pick(&self.pool).clone(),
            15 if !self.pool.is_empty() => self.twin(),
            8 | 10 => self.t.pick(NASTY).to_string(),
            9 => {
                let n = self.t.range(1, 6);
                let mut x = String::new();
                for _ in 0..n {
                    let c = match self.t.draw(4) {
                        0 => self.t.draw(128) as u32,
                        1 => 0x80 + self.t.draw(0x700) as u32,
                        2 => self.t.draw(0x10000) as u32,
                        _ => self.t.draw(0x11_0000) as u32,
                    };
                    x.push(char::from_u32(c).unwrap_or('?'));
                }
                x
            }
            _ => format!("s{}", self.mark()),
        }
    }
    fn lang(&mut self) -> &'static str {
        if self.odd && self.t.chance(1, 5) {
            return self.t.pick(LANG_CASES).0;
        }
        *self.t.pick(LANGS)
    }
    pub fn key(&mut self) -> String {
        if self.odd && self.t.chance(1, 3) {
            return match self.t.draw(8) {
                5 if !self.pool.is_empty() => self.t.pick(&self.pool).clone(),
                4 if !self.pool.is_empty() => self.twin(),
                6 => self.t.pick(USUAL).to_string(),
                7 => self.long(),
                _ => self.t.pick(NASTY_KEYS).to_string(),
            };
        }
        let k = format!("k{}", self.mark());
        if self.odd && self.pool.len() < 64 {
            self.pool.push(k.clone());
        }
        k
    }
    /// A part of this kind that is there already, for another place.
    fn part(&mut self, k: Kind) -> Option<J> {
        if !self.echo || !self.t.chance(1, 3) {
            return None;
        }
        let n = self.parts.iter().filter(|(x, _)| *x == k).count() as u64;
        if n == 0 {
            return None;
        }
        let i = self.t.draw(n) as usize;
        self.parts.iter().filter(|(x, _)| *x == k).nth(i).map(|(_, v)| v.clone())
    }
    fn keep(&mut self, k: Kind, v: &J) {
        if self.echo && self.parts.len() < 64 && size(v) <= 24 {
            self.parts.push((k, v.clone()));
        }
    }
    fn int(&mut self, lo: i128, hi: i128) -> i128 {
        if self.echo && self.t.chance(2, 3) {
            return (self.t.draw(4) as i128).clamp(lo, hi);
        }
        let v = match self.t.draw(9) {
            8 => {
                let bits = *self.t.pick(&[8u32, 15, 16, 24, 31, 32, 53, 62, 63]);
                (1i128 << bits) + self.t.draw(3) as i128 - 1
            }
            5 => lo,
            6 => hi,
            7 => {
                let x = self.t.draw(u64::MAX) as i128;
                lo + x.rem_euclid(hi - lo + 1)
            }
            n => self.t.draw(1 << (4 * (n + 1))) as i128,
        };
        v.clamp(lo, hi)
    }
    /// Short floats: the library prints them shortest and reads them exactly.
    fn float(&mut self) -> f64 {
        if self.echo && self.t.chance(2, 3) {
            return *self.t.pick(&[0.0, 1.0, -0.0, 2.0, -1.0]);
        }
        match self.t.draw(10) {
            0..=4 => self.t.draw(1000) as f64,
            5 => -(self.t.draw(1000) as f64),
            6 => self.t.draw(1 << 16) as f64 / 256.0,
            7 => -(self.t.draw(1 << 16) as f64) / 256.0,
            8 => *self.t.pick(&[0.5, -0.0, 0.0, 0.25, 1e15, -1e15, 1e300, -1e300, 1e-5]),
            _ => self.t.draw(1 << 40) as f64 * 1024.0,
        }
    }
    pub fn any(&mut self, depth: u64) -> J {
        if self.echo && self.t.chance(1, 2) {
            return match self.t.draw(9) {
                0 => J::Int(0),
                1 => s(""),
                2 => s("s0"),
                3 => J::Null,
                4 => J::Bool(false),
                5 => J::Flt(0.0),
                6 => J::Arr(Vec::new()),
                7 => J::obj(),
                _ => J::Int(1),
            };
        }
        let n = if depth == 0 { 6 } else { 8 };
        match self.t.draw(n) {
            0 => J::Int(self.t.draw(100) as i128),
            1 => s(self.string()),
            2 => J::Bool(self.t.chance(1, 2)),
            3 => J::Flt(self.float()),
            4 => J::Null,
            5 => J::Int(self.int(i64::MIN as i128, u64::MAX as i128)),
            6 => {
                let n = self.t.draw(4);
                J::Arr((0..n).map(|_| self.any(depth - 1)).collect())
            }
            _ => {
                let n = self.t.draw(4);
                let mut m: Vec<(String, J)> = Vec::new();
                for _ in 0..n {
                    let k = self.key();
                    let v = self.any(depth - 1);
                    if !m.iter().any(|(l, _)| *l == k) {
                        m.push((k, v));
                    }
                }
                J::Obj(m)
            }
        }
    }
    /// An instant within the years RFC 3339 can name, and the offset of the clock showing it.
    pub fn instant(&mut self) -> (i128, i32) {
        if self.echo && self.t.chance(2, 3) {
            // An instant that others are as well, by another clock or not.
            let n = *self.t.pick(&[0i128, 1_700_000_000_000_000_000, 1_700_000_000_000_000_001]);
            let h = *self.t.pick(&[0, 0, 3600, -3600]);
            return (n, h);
        }
        let off = match self.t.draw(4) {
            0 => 0,
            1 => (self.t.draw(48) as i32 - 24).clamp(-23, 23) * 3600,
            _ => (self.t.draw(2 * 1439 + 1) as i32 - 1439) * 60,
        };
        let secs: i64 = match self.t.draw(6) {
            0 => 1_700_000_000 + self.t.draw(100_000_000) as i64,
            1 => *self.t.pick(&[
                0,
                -1,
                951_782_399,
                951_868_800,
                1_709_164_799,
                4_102_444_799,
                -2_203_891_200,
                2_147_483_647,
                2_147_483_648,
            ]),
            2 => -62_167_132_800 + self.t.draw(1 << 33) as i64,
            3 => 253_402_214_399 - self.t.draw(1 << 33) as i64,
            _ => -62_167_132_800 + (self.t.draw(315_569_174_399)) as i64,
        };
        let nanos = match self.t.draw(5) {
            0 => 0,
            1 => self.t.draw(1_000_000_000) as i128,
            2 => self.t.draw(1000) as i128 * 1_000_000,
            3 => 999_999_999,
            _ => self.t.draw(10) as i128,
        };
        (secs as i128 * 1_000_000_000 + nanos, off)
    }
    fn date(&mut self) -> J {
        let (n, o) = self.instant();
        s(crate::dates::spell(n, o)
            .or_else(|| crate::dates::spell(n, 0))
            .unwrap_or_else(|| "2024-01-02T03:04:05.000000000+00:00".into()))
    }
    fn some(&mut self, max: u64) -> u64 {
        if !self.built && self.t.chance(1, 16) {
            return 0;
        }
        if self.t.chance(1, 2) {
            1
        } else {
            self.lots(max)
        }
    }
    fn lots(&mut self, max: u64) -> u64 {
        let b = self.bulk;
        if self.budget > 0 && b > 0 && self.t.chance(b, 16) {
            let most = match b {
                1 => 9,
                3 => 34,
                // One such list is enough for a document.
                _ => {
                    self.bulk = 1;
                    let most = *self.t.pick(&[40, 70, 135, 260, 40, 70, 135, 260, 40, 70, 135, 520, 40, 70, 260, 1030]);
                    if self.t.chance(1, 3) {
                        return most - self.t.draw(8);
                    }
                    most
                }
            };
            return self.t.range(1, most);
        }
        self.t.range(1, max)
    }
    /// Up to `max` more, or many.
    fn upto(&mut self, max: u64) -> u64 {
        let n = self.t.draw(max + 1);
        if n == max {
            self.lots(max)
        } else {
            n
        }
    }

    pub fn ty(&mut self, t: &T, depth: u64) -> J {
        match t {
            T::Any => self.any(2),
            T::Str => s(self.string()),
            T::Bool => J::Bool(self.t.chance(1, 2)),
            T::U8 => J::Int(self.int(0, u8::MAX as i128)),
            T::U16 => J::Int(self.int(0, u16::MAX as i128)),
            T::U32 => J::Int(self.int(0, u32::MAX as i128)),
            T::Usize => J::Int(self.int(0, u64::MAX as i128)),
            T::I64 => {
                let v = self.int(i64::MIN as i128, i64::MAX as i128);
                J::Int(v)
            }
            T::NzU64 => J::Int(self.int(1, u64::MAX as i128)),
            T::F64 => {
                if !self.built && self.t.chance(1, 4) {
                    J::Int(self.t.draw(1000) as i128)
                } else {
                    J::Flt(self.float())
                }
            }
            T::Date => self.date(),
            T::Lang => s(self.lang()),
            T::Enum(v) => s(*self.t.pick(v)),
            T::IntEnum(v) => J::Int(*self.t.pick(v) as i128),
            T::Many(t) | T::Arr(t) => {
                let n = self.some(3);
                let mut a: Vec<J> = Vec::new();
                for _ in 0..n {
                    // Now and then what is there already.
                    if !a.is_empty() && self.t.chance(1, 10) {
                        let x = self.t.pick(&a).clone();
                        a.push(x);
                    } else {
                        a.push(self.ty(t, depth));
                    }
                }
                J::Arr(a)
            }
            T::Map(t) => {
                let n = self.some(3);
                let mut m: Vec<(String, J)> = Vec::new();
                for _ in 0..n {
                    let k = self.key();
                    if !m.iter().any(|(l, _)| *l == k) {
                        let v = self.ty(t, depth);
                        m.push((k, v));
                    }
                }
                J::Obj(m)
            }
            T::MLang => {
                let n = if self.t.chance(1, 16) { 0 } else { self.t.range(1, 3) };
                let mut m: Vec<(String, J)> = Vec::new();
                for _ in 0..n {
                    // Sometimes another spelling of a language that is there already.
                    let twin = self.odd && self.t.chance(1, 3);
                    let k = LANG_CASES
                        .iter()
                        .find(|(_, c)| twin && m.last().is_some_and(|(l, _)| l == c))
                        .map(|(k, _)| *k)
                        .unwrap_or_else(|| self.lang())
                        .to_string();
                    if !m.iter().any(|(l, _)| *l == k) {
                        let v = s(self.string());
                        m.push((k, v));
                    }
                }
                J::Obj(m)
            }
            T::Node(n) => self.node(*n, depth),
            T::ElemOrArr => {
                if self.t.chance(1, 2) {
                    self.ty(&T::Arr(&T::Node(N::Ds)), depth)
                } else {
                    self.node(N::Ds, depth)
                }
            }
        }
    }

    fn field(&mut self, f: &F, depth: u64, o: &mut J) {
        if f.req || self.opt() {
            // `@context: null` is left out: the library cannot tell it from an absent one.
            let v = self.ty(&f.t, depth);
            o.set(f.n, v);
        }
    }
    fn fields(&mut self, fs: &[&'static [F]], depth: u64, o: &mut J) {
        for f in fs.iter().flat_map(|x| x.iter()) {
            self.field(f, depth, o);
        }
    }
    fn pick_names(&mut self, names: &[String], max: u64) -> J {
        let n = self.some(max);
        J::Arr((0..n).map(|_| s(self.t.pick(names).clone())).collect())
    }

    pub fn node(&mut self, n: N, depth: u64) -> J {
        if let Some(v) = self.part(Kind::Node(n)) {
            return v;
        }
        let v = self.fresh_node(n, depth);
        self.keep(Kind::Node(n), &v);
        v
    }
    fn fresh_node(&mut self, n: N, depth: u64) -> J {
        self.budget -= 1;
        match n {
            N::Ds => self.ds(false, false, depth),
            N::Prop => {
                let mut o = self.ds(true, false, depth);
                self.inter(N::Prop, depth, &mut o);
                let mut x = vec![prop_fields()];
                ext(self.exts, Pt::Prop, &mut x);
                self.fields(&x, depth, &mut o);
                o
            }
            N::Action | N::Event => {
                let mut o = J::obj();
                self.fields(&[human_fields()], depth, &mut o);
                self.inter(n, depth, &mut o);
                let mut x = vec![if n == N::Action { action_fields() } else { event_fields() }];
                let at = if n == N::Action { Pt::Action } else { Pt::Event };
                ext(self.exts, at, &mut x);
                self.fields(&x, depth, &mut o);
                o
            }
            N::Form => self.form(N::Form, depth),
            N::Link => {
                let mut o = J::obj();
                self.fields(&base_fields(N::Link, self.set), depth, &mut o);
                if self.built && o.get("sizes").is_some() {
                    o.set("rel", s("icon"));
                }
                o
            }
            N::Resp => {
                let mut o = J::obj();
                let fs = base_fields(N::Resp, self.exts);
                self.fields(&fs, depth, &mut o);
                o
            }
            N::AddResp => {
                let mut o = J::obj();
                for f in base_fields(N::AddResp, self.exts).into_iter().flatten() {
                    if f.n == "schema" {
                        if self.built || self.t.chance(1, 2) {
                            if !self.schemas.is_empty() && self.opt() {
                                let names = self.schemas.clone();
                                let v = s(self.t.pick(&names).clone());
                                o.set("schema", v);
                            }
                            continue;
                        }
                    }
                    self.field(f, depth, &mut o);
                }
                o
            }
            N::Sec => self.sec(),
            n => {
                let mut o = J::obj();
                let fs = base_fields(n, self.exts);
                self.fields(&fs, depth, &mut o);
                o
            }
        }
    }

    fn inter(&mut self, n: N, depth: u64, o: &mut J) {
        let k = self.upto(2);
        let k = if self.budget < 0 { k.min(1) } else { k };
        let forms = (0..k).map(|_| self.form(n, depth)).collect();
        o.set("forms", J::Arr(forms));
        if self.opt() && self.budget > 0 {
            let v = self.uri_variables(depth);
            o.set("uriVariables", v);
        }
        let mut x = Vec::new();
        ext(self.exts, Pt::Inter, &mut x);
        self.fields(&x, depth, o);
    }
    fn uri_variables(&mut self, depth: u64) -> J {
        let mut m: Vec<(String, J)> = Vec::new();
        for _ in 0..self.some(2) {
            let k = self.key();
            if !m.iter().any(|(l, _)| *l == k) {
                let v = self.ds(false, true, depth.min(1));
                m.push((k, v));
            }
        }
        J::Obj(m)
    }

    /// `at` is the affordance kind, or `Form` for a Thing-level form.
    pub fn form(&mut self, at: N, depth: u64) -> J {
        if let Some(v) = self.part(Kind::Form(at)) {
            return v;
        }
        let v = self.fresh_form(at, depth);
        self.keep(Kind::Form(at), &v);
        v
    }
    fn fresh_form(&mut self, at: N, depth: u64) -> J {
        self.budget -= 1;
        let mut o = J::obj();
        let ops: Vec<String> = if self.built {
            ops_of(at).iter().map(|x| x.to_string()).collect()
        } else {
            OPS.iter().map(|x| x.to_string()).collect()
        };
        let need = self.built && at == N::Form;
        for f in base_fields(N::Form, self.exts).into_iter().flatten() {
            match f.n {
                "op" => {
                    if need || self.opt() {
                        let v = self.pick_names(&ops, 3);
                        o.set("op", v);
                    }
                }
                "security" if self.built || self.t.chance(1, 2) => {
                    if !self.secs.is_empty() && self.opt() {
                        let names = self.secs.clone();
                        let v = self.pick_names(&names, 2);
                        o.set("security", v);
                    }
                }
                _ => self.field(f, depth, &mut o),
            }
        }
        o
    }

    fn sec(&mut self) -> J {
        let mut o = J::obj();
        self.fields(&base_fields(N::Sec, self.set), 0, &mut o);
        let scheme = match self.t.draw(12) {
            n @ 0..=8 => SCHEMES[n as usize].to_string(),
            _ => format!("x:{}", self.uniq()),
        };
        o.set("scheme", s(scheme.clone()));
        match scheme.as_str() {
            "combo" => {
                let k = if self.t.chance(1, 2) { "allOf" } else { "oneOf" };
                let mut names = self.secs.clone();
                if !self.built {
                    names.push(format!("sc{}", self.uniq()));
                }
                if names.is_empty() {
                    // Nothing to combine yet.
                    o.set("scheme", s("nosec"));
                } else {
                    let v = self.pick_names(&names, 3);
                    o.set(k, v);
                }
            }
            _ => match scheme_fields(&scheme) {
                Some(fs) => {
                    for f in fs {
                        if self.built && f.n == "identity" {
                            continue;
                        }
                        self.field(f, 0, &mut o);
                    }
                }
                None => {
                    for _ in 0..self.upto(2) {
                        let k = format!("y{}", self.mark());
                        let v = self.any(2);
                        o.set(k, v);
                    }
                }
            },
        }
        o
    }

    fn bounds(&mut self, int: bool, o: &mut J) {
        let num = |g: &mut Self| -> J {
            if int {
                g.ty(&T::I64, 0)
            } else {
                g.ty(&T::F64, 0)
            }
        };
        let lo = self.opt();
        let hi = self.opt();
        let (xl, xh) = (self.t.chance(1, 3), self.t.chance(1, 3));
        let mut a = num(self);
        let mut b = num(self);
        if self.built && lo && hi {
            let less = if int { b.int() < a.int() } else { b.f64() < a.f64() };
            if less {
                std::mem::swap(&mut a, &mut b);
            }
            let equal = if int { a.int() == b.int() } else { a.f64() == b.f64() };
            if equal && (xl || xh) {
                // Equal bounds with an open end admit nothing.
                b = if int {
                    if a.int() == i64::MAX as i128 {
                        a = J::Int(0);
                    }
                    J::Int(a.int() + 1)
                } else {
                    a = J::Flt(1.0);
                    J::Flt(2.5)
                };
            }
        }
        if lo {
            o.set(if xl { "exclusiveMinimum" } else { "minimum" }, a);
        }
        if hi {
            o.set(if xh { "exclusiveMaximum" } else { "maximum" }, b);
        }
        if self.opt() {
            let v = if int {
                self.ty(&T::NzU64, 0)
            } else {
                let x = self.float().abs();
                J::Flt(if x == 0.0 { 0.5 } else { x })
            };
            o.set("multipleOf", v);
        }
    }
    fn lengths(&mut self, lo: &str, hi: &str, ordered: bool, o: &mut J) {
        let mut a = self.int(0, u32::MAX as i128);
        let mut b = self.int(0, u32::MAX as i128);
        if ordered && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if self.opt() {
            o.set(lo, J::Int(a));
        }
        if self.opt() {
            o.set(hi, J::Int(b));
        }
    }
    fn flags(&mut self, o: &mut J) {
        if !self.opt() {
            return;
        }
        match self.t.draw(4) {
            0 => o.set("readOnly", J::Bool(true)),
            1 => o.set("writeOnly", J::Bool(true)),
            2 => {
                if !self.built {
                    o.set("readOnly", J::Bool(true));
                    o.set("writeOnly", J::Bool(true));
                }
            }
            _ => {
                o.set("readOnly", J::Bool(false));
                o.set("writeOnly", J::Bool(false));
            }
        }
    }

    pub fn ds(&mut self, prop: bool, uri: bool, depth: u64) -> J {
        if prop {
            return self.fresh_ds(prop, uri, depth);
        }
        if let Some(v) = self.part(Kind::Ds { uri }) {
            return v;
        }
        let v = self.fresh_ds(prop, uri, depth);
        self.keep(Kind::Ds { uri }, &v);
        v
    }
    fn fresh_ds(&mut self, prop: bool, uri: bool, depth: u64) -> J {
        self.budget -= 1;
        let mut o = J::obj();
        self.fields(&[human_fields()], 0, &mut o);
        for k in ["unit", "format"] {
            if self.opt() {
                let v = s(self.string());
                o.set(k, v);
            }
        }
        if self.opt() {
            let v = self.any(2);
            o.set("default", v);
        }
        let mut x = Vec::new();
        ext(self.exts, Pt::Ds, &mut x);
        self.fields(&x, 0, &mut o);
        let deep = depth > 0 && self.budget > 0;
        if self.built {
            // null boolean string integer number const enum | oneOf object array
            let kinds = if deep { 10 } else { 7 };
            let mut kind = self.t.draw(kinds);
            if deep && self.t.chance(1, 4) {
                kind = 7 + self.t.draw(3);
            }
            if uri && kind >= 7 {
                kind = if kind == 7 { 7 } else { 3 };
            }
            match kind {
                5 => {
                    let v = self.any(2);
                    o.set("const", v);
                    o.set("readOnly", J::Bool(true));
                }
                6 => {
                    let n = self.t.range(1, 5);
                    let v = J::Arr((0..n).map(|_| self.any(1)).collect());
                    o.set("enum", v);
                    self.flags(&mut o);
                }
                7 => {
                    let n = self.t.range(1, 2);
                    let v = J::Arr((0..n).map(|_| self.ds(false, uri, depth - 1)).collect());
                    o.set("oneOf", v);
                }
                n => {
                    let ty = ["null", "boolean", "string", "integer", "number", "", "", "", "object", "array"]
                        [n as usize];
                    self.typed(ty, prop, depth, &mut o);
                    self.flags(&mut o);
                }
            }
            return o;
        }
        if self.t.chance(7, 8) {
            let ty = if deep {
                *self.t.pick(TYPES)
            } else {
                *self.t.pick(&TYPES[..5])
            };
            self.typed(ty, prop, depth, &mut o);
        }
        if self.opt() && self.t.chance(1, 2) {
            let v = self.any(2);
            o.set("const", v);
        }
        if self.opt() && self.t.chance(1, 2) {
            let v = self.ty(&T::Arr(&T::Any), 0);
            o.set("enum", v);
        }
        if deep && self.opt() && self.t.chance(1, 2) {
            let n = self.some(2);
            let v = J::Arr((0..n).map(|_| self.node(N::Ds, depth - 1)).collect());
            o.set("oneOf", v);
        }
        self.flags(&mut o);
        o
    }

    fn typed(&mut self, ty: &str, prop: bool, depth: u64, o: &mut J) {
        o.set("type", s(ty));
        match ty {
            "integer" => self.bounds(true, o),
            "number" => self.bounds(false, o),
            "string" if !(self.built && prop) => {
                self.lengths("minLength", "maxLength", self.built, o);
                for k in ["pattern", "contentEncoding", "contentMediaType"] {
                    if self.opt() {
                        let v = s(self.string());
                        o.set(k, v);
                    }
                }
            }
            "object" => {
                let n = self.upto(3);
                let mut props: Vec<(String, J)> = Vec::new();
                let mut req = Vec::new();
                for _ in 0..n {
                    let k = self.key();
                    if props.iter().any(|(l, _)| *l == k) {
                        continue;
                    }
                    let v = self.ds(false, false, depth.saturating_sub(1));
                    if self.t.chance(1, 3) {
                        req.push(s(k.clone()));
                    }
                    props.push((k, v));
                }
                if !self.built && self.t.chance(1, 8) {
                    req.push(s(self.string()));
                }
                // The same property declared again.
                if !req.is_empty() && self.t.chance(1, 8) {
                    let k = self.t.pick(&req).clone();
                    req.push(k);
                }
                if !props.is_empty() || (!self.built && self.t.chance(1, 4)) {
                    o.set("properties", J::Obj(props));
                }
                if !req.is_empty() || (!self.built && self.t.chance(1, 8)) {
                    o.set("required", J::Arr(req));
                }
                let mut x = Vec::new();
                ext(self.exts, Pt::Obj, &mut x);
                self.fields(&x, 0, o);
            }
            "array" => {
                let d = depth.saturating_sub(1);
                if self.built {
                    if self.t.chance(1, 2) {
                        let n = self.upto(3);
                        let v = (0..n).map(|_| self.ds(false, false, d)).collect();
                        o.set("items", J::Arr(v));
                    } else {
                        if self.t.chance(2, 3) {
                            let v = self.ds(false, false, d);
                            o.set("items", v);
                        }
                        self.lengths("minItems", "maxItems", true, o);
                    }
                } else {
                    if self.t.chance(2, 3) {
                        let v = self.ty(&T::ElemOrArr, d);
                        o.set("items", v);
                    }
                    self.lengths("minItems", "maxItems", false, o);
                }
                let mut x = Vec::new();
                ext(self.exts, Pt::Arr, &mut x);
                self.fields(&x, 0, o);
            }
            _ => {}
        }
    }

    fn nest(&mut self) -> u64 {
        *self.t.pick(&[2, 1, 3, 4, 6, 8])
    }

    /// A document some implementation publishes.
    pub fn doc(&mut self) -> J {
        let mut o = J::obj();
        let depth = self.nest();
        if self.t.chance(3, 4) {
            let v = self.context();
            o.set("@context", v);
        }
        let v = s(self.string());
        o.set("title", v);
        let mut defs = Vec::new();
        for _ in 0..self.upto(3) {
            let k = self.key();
            if self.secs.contains(&k) {
                continue;
            }
            let v = self.sec();
            self.secs.push(k.clone());
            defs.push((k, v));
        }
        o.set("securityDefinitions", J::Obj(defs));
        let names = if self.secs.is_empty() { vec!["undefined".into()] } else { self.secs.clone() };
        let v = self.pick_names(&names, 2);
        o.set("security", v);
        if self.opt() {
            let v = self.ty(&T::Map(&T::Node(N::Ds)), depth);
            self.schemas = v.members().iter().map(|(k, _)| k.clone()).collect();
            o.set("schemaDefinitions", v);
        }
        let fs = base_fields(N::Thing, self.exts);
        for f in fs.into_iter().flatten() {
            match f.n {
                "@context" | "title" | "security" | "securityDefinitions" | "schemaDefinitions" => {}
                "properties" | "actions" | "events" => {
                    if self.t.chance(1, 2) {
                        let v = self.ty(&f.t, depth);
                        o.set(f.n, v);
                    }
                }
                _ => self.field(f, depth.min(2), &mut o),
            }
        }
        o
    }
    fn context(&mut self) -> J {
        match self.t.draw(5) {
            0 => s(TD11),
            1 => s(self.string()),
            2 => J::Arr(vec![s(TD11)]),
            3 => {
                let mut a = vec![s(TD11)];
                for _ in 0..self.t.draw(3) {
                    let x = match self.t.draw(8) {
                        0..=3 => s(self.string()),
                        4..=6 => self.ty(&T::Map(&T::Str), 0),
                        _ => self.t.pick(&a).clone(),
                    };
                    a.push(x);
                }
                // That of the specification is not always the first.
                if self.t.chance(1, 3) {
                    let i = self.t.draw(a.len() as u64) as usize;
                    let first = a.remove(0);
                    a.insert(i, first);
                }
                J::Arr(a)
            }
            _ => self.ty(&T::Map(&T::Str), 0),
        }
    }

    /// The contributions of a producer: title, Thing-level extension members and builder calls.
    pub fn calls(&mut self) -> (String, J, Vec<Call>) {
        let depth = self.nest();
        let title = self.string();
        let mut ext_m = J::obj();
        let mut x = Vec::new();
        ext(self.set, Pt::Thing, &mut x);
        self.fields(&x, 0, &mut ext_m);
        let mut out: Vec<Call> = Vec::new();
        // Definitions first, so that the rest can refer to them.
        for _ in 0..self.upto(3) {
            self.security_call(&mut out);
        }
        if self.opt() {
            for _ in 0..self.lots(2) {
                let k = self.key();
                if !self.schemas.contains(&k) {
                    let v = self.ds(false, false, depth.min(3));
                    self.schemas.push(k.clone());
                    out.push(Call::new("schemaDefinitions", &k, v));
                }
            }
        }
        for (kind, n) in [("properties", N::Prop), ("actions", N::Action), ("events", N::Event)] {
            let mut names: Vec<String> = Vec::new();
            for _ in 0..self.upto(2) {
                let k = self.key();
                if names.contains(&k) {
                    continue;
                }
                let v = self.node(n, depth);
                names.push(k.clone());
                out.push(Call::new(kind, &k, v));
            }
        }
        for f in thing_fields() {
            let n = f.n;
            if !self.opt() {
                continue;
            }
            match n {
                "id" | "description" | "support" | "base" | "created" | "modified" | "titles"
                | "descriptions" => {
                    let v = self.ty(&f.t, 0);
                    out.push(Call::new(n, "", v));
                }
                "version" => {
                    let v = self.node(N::Version, 0);
                    out.push(Call::new(n, "", v));
                }
                "@type" | "profile" => {
                    for _ in 0..self.lots(3) {
                        let v = s(self.string());
                        out.push(Call::new(n, "", v));
                    }
                }
                "links" => {
                    for _ in 0..self.lots(2) {
                        let v = self.node(N::Link, 0);
                        out.push(Call::new(n, "", v));
                    }
                }
                "forms" => {
                    for _ in 0..self.lots(2) {
                        let v = self.form(N::Form, 0);
                        out.push(Call::new(n, "", v));
                    }
                }
                "uriVariables" => {
                    let v = self.uri_variables(depth.min(2));
                    for (k, d) in v.members() {
                        out.push(Call::new(n, k, d.clone()));
                    }
                }
                "@context" => {
                    for _ in 0..self.lots(3) {
                        match self.t.draw(3) {
                            0 => {
                                let v = s(self.string());
                                out.push(Call::new("context", "", v));
                            }
                            1 => {
                                let v = self.ty(&T::Map(&T::Str), 0);
                                out.push(Call::new("context_map", "", v));
                            }
                            _ => out.push(Call::new("context", "", s(TD11))),
                        }
                    }
                }
                _ => {}
            }
        }
        // In any order.
        let seed = self.t.subseed();
        if seed != 0 {
            let mut r = Rng::new(seed);
            for i in (1..out.len()).rev() {
                let k = r.below(i as u64 + 1) as usize;
                out.swap(i, k);
            }
            // What can be said twice, at once or later.
            let again = ["context", "context_map", "@type", "profile", "links", "forms"];
            for i in (0..out.len()).rev() {
                if again.contains(&out[i].k.as_str()) && r.chance(1, 12) {
                    let c = out[i].clone();
                    let n = (out.len() - i) as u64;
                    let k = if r.chance(1, 2) { i } else { i + r.below(n) as usize };
                    out.insert(k, c);
                }
            }
        }
        (title, ext_m, out)
    }

    pub fn security_call(&mut self, out: &mut Vec<Call>) {
        let d = self.sec();
        let scheme = d.get("scheme").and_then(|x| x.str()).unwrap_or("").to_string();
        let keyed = self.secs.contains(&scheme) || self.t.chance(1, 2);
        let name = if keyed { self.key() } else { scheme };
        if self.secs.contains(&name) {
            return;
        }
        let mut v = J::obj();
        if keyed {
            v.set("key", s(name.clone()));
        }
        v.set("required", J::Bool(self.t.chance(1, 2)));
        v.set("def", d);
        self.secs.push(name);
        out.push(Call::new("security", "", v));
    }
}

/// The name a `security` call defines.
pub fn sec_name(v: &J) -> String {
    v.get("key")
        .or_else(|| v.get("def").and_then(|d| d.get("scheme")))
        .and_then(|x| x.str())
        .unwrap_or("")
        .to_string()
}

/// What a set of contributions, made in this order, says: the reference model of the builder.
pub fn fold(title: &str, ext_m: &J, calls: &[Call]) -> J {
    let mut o = ext_m.clone();
    o.set("title", s(title));
    let mut security = Vec::new();
    let mut defs = J::obj();
    let mut ctx: Vec<J> = Vec::new();
    fn push(o: &mut J, k: &str, v: J) {
        match o.get_mut(k) {
            Some(J::Arr(a)) => a.push(v),
            _ => o.set(k, J::Arr(vec![v])),
        }
    }
    fn insert(o: &mut J, k: &str, n: &str, v: J) {
        match o.get_mut(k) {
            Some(m) => m.set(n, v),
            None => o.set(k, J::Obj(vec![(n.to_string(), v)])),
        }
    }
    for c in calls {
        match c.k.as_str() {
            "@type" | "links" | "profile" | "forms" => push(&mut o, &c.k, c.v.clone()),
            "uriVariables" | "schemaDefinitions" | "properties" | "actions" | "events" => {
                insert(&mut o, &c.k, &c.name, c.v.clone())
            }
            "security" => {
                let n = sec_name(&c.v);
                if c.v.get("required").is_some_and(|x| x.bool()) {
                    security.push(s(n.clone()));
                }
                defs.set(n, c.v.get("def").cloned().unwrap_or(J::Null));
            }
            "context" => {
                if c.v.str() != Some(TD11) {
                    ctx.push(c.v.clone());
                }
            }
            "context_map" => ctx.push(c.v.clone()),
            "created" | "modified" => {
                let v = match &c.v {
                    J::Arr(a) => s(crate::dates::spell(a[0].int(), a[1].int() as i32).unwrap_or_default()),
                    v => v.clone(),
                };
                o.set(c.k.clone(), v);
            }
            k => o.set(k, c.v.clone()),
        }
    }
    o.set("security", J::Arr(security));
    o.set("securityDefinitions", defs);
    if !ctx.is_empty() {
        ctx.insert(0, s(TD11));
        o.set("@context", J::Arr(ctx));
    }
    canon_langs(&mut o);
    o
}

// ---------------------------------------------------------------- equivalent spellings

/// Names the library knows without the vocabulary knowing them (recorded findings).
const NOT_UNKNOWN: &[&str] = &["data_response"];

/// A name that looks like `k` and is none of the vocabulary.
fn near(k: &str, how: u64) -> String {
    match how {
        0 => k
            .chars()
            .flat_map(|c| {
                let low: Vec<char> = c.to_lowercase().collect();
                if c.is_uppercase() { [vec!['_'], low].concat() } else { low }
            })
            .collect::<String>(),
        1 => k.chars().map(|c| c.to_ascii_uppercase()).collect(),
        2 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
        3 => format!("{k}s"),
        4 => format!("@{k}"),
        _ => format!("{k} "),
    }
}

/// Rewrites a document into one that says the same, as an intermediary of another make might.
pub struct Respell<'r> {
    pub r: &'r mut Rng,
    pub defaults: bool,
    pub single: bool,
    pub unknown: bool,
    pub dates: bool,
    pub exts: Set,
    n: u64,
    pub done: [u64; 4],
}

impl<'r> Respell<'r> {
    pub fn new(r: &'r mut Rng, exts: Set) -> Self {
        let b = r.next();
        Respell {
            defaults: b & 1 != 0,
            single: b & 2 != 0,
            unknown: b & 4 != 0,
            dates: b & 8 != 0,
            r,
            exts,
            n: 0,
            done: [0; 4],
        }
    }
    pub fn node(&mut self, n: N, v: &J) -> J {
        let mut fs = base_fields(n, self.exts);
        let ty = v.get("type").and_then(|x| x.str()).map(str::to_string);
        if n == N::Ds || n == N::Prop {
            if let Some(t) = &ty {
                subtype_fields(t, self.exts, &mut fs);
            }
        }
        let mut custom = false;
        if n == N::Sec {
            match v.get("scheme").and_then(|x| x.str()).and_then(scheme_fields) {
                Some(x) => fs.push(x),
                None => custom = true,
            }
        }
        let mut out = Vec::new();
        for (k, x) in v.members() {
            match fs.iter().flat_map(|f| f.iter()).find(|f| f.n == k) {
                Some(f) => {
                    if self.defaults && f.d.j().as_ref() == Some(x) && self.r.chance(1, 2) {
                        self.done[0] += 1;
                        continue;
                    }
                    out.push((k.clone(), self.ty(&f.t, x)));
                }
                None => out.push((k.clone(), x.clone())),
            }
        }
        if self.defaults {
            for f in fs.iter().flat_map(|f| f.iter()) {
                if let Some(d) = f.d.j() {
                    if v.get(f.n).is_none() && self.r.chance(1, 3) {
                        self.done[0] += 1;
                        out.push((f.n.to_string(), d));
                    }
                }
            }
        }
        if self.unknown && !custom && self.r.chance(1, 3) {
            self.n += 1;
            self.done[2] += 1;
            let x = match self.r.below(6) {
                0 => J::Null,
                1 => J::Int(1),
                2 => s("unknown"),
                3 => J::Arr(vec![J::Obj(vec![("type".into(), s("object"))]), J::Null]),
                4 => J::Obj(vec![("title".into(), J::Bool(true)), ("a".into(), J::Arr(vec![]))]),
                _ => J::Flt(2.5),
            };
            let taken = |k: &str| fs.iter().flat_map(|f| f.iter()).any(|f| f.n == k) || out.iter().any(|(l, _)| l == k);
            let k = match self.r.below(6) {
                4 => {
                    // What it is almost called.
                    let all: Vec<&str> = fs.iter().flat_map(|f| f.iter()).map(|f| f.n).filter(|n| !n.contains(':')).collect();
                    let k = if all.is_empty() { "title" } else { all[self.r.below(all.len() as u64) as usize] };
                    let k = near(k, self.r.below(6));
                    if taken(&k) || NOT_UNKNOWN.contains(&k.as_str()) {
                        format!("zz:{}", self.n)
                    } else {
                        k
                    }
                }
                0 => format!("zz:{}", self.n),
                1 => format!("Type{}", self.n),
                2 => format!("x{}", self.n),
                _ => format!("\u{e9}{}", self.n),
            };
            let at = self.r.below(out.len() as u64 + 1) as usize;
            out.insert(at, (k, x));
        }
        J::Obj(out)
    }
    fn ty(&mut self, t: &T, v: &J) -> J {
        match (t, v) {
            (T::Node(n), J::Obj(_)) => self.node(*n, v),
            (T::Many(t), J::Arr(a)) => {
                if a.len() == 1 && self.single && self.r.chance(1, 2) {
                    self.done[1] += 1;
                    return self.ty(t, &a[0]);
                }
                J::Arr(a.iter().map(|x| self.ty(t, x)).collect())
            }
            (T::Arr(t), J::Arr(a)) => J::Arr(a.iter().map(|x| self.ty(t, x)).collect()),
            (T::Map(t), J::Obj(m)) => {
                J::Obj(m.iter().map(|(k, x)| (k.clone(), self.ty(t, x))).collect())
            }
            (T::ElemOrArr, J::Arr(a)) => J::Arr(a.iter().map(|x| self.node(N::Ds, x)).collect()),
            (T::ElemOrArr, J::Obj(_)) => self.node(N::Ds, v),
            (T::Date, J::Str(x)) if self.dates => {
                // 2024-01-02T03:04:05.000000000+00:00
                let mut t = x.clone();
                if t.len() == 35 {
                    let (head, off) = t.split_at(29);
                    let mut head = head.to_string();
                    if self.r.chance(1, 2) {
                        while head.ends_with('0') {
                            head.pop();
                        }
                        if head.ends_with('.') {
                            head.pop();
                        }
                    }
                    let off = if off == "+00:00" && self.r.chance(1, 2) { "Z" } else { off };
                    self.done[3] += 1;
                    t = format!("{head}{off}");
                }
                s(t)
            }
            (T::F64, J::Flt(f)) if self.single && f.fract() == 0.0 && f.abs() < 1e15 && *f != 0.0 => {
                J::Int(*f as i128)
            }
            _ => v.clone(),
        }
    }
}
