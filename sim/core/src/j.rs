//! A JSON value that keeps everything a document says (member order, repeated members, integer
//! and float literals), its strict parser and its writers. Independent of serde.

use crate::tape::Rng;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Flt(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

fn near(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() || (a < 0.0) != (b < 0.0) {
        return false;
    }
    let (x, y) = (a.abs().to_bits(), b.abs().to_bits());
    x.abs_diff(y) <= 4
}

impl PartialEq for J {
    fn eq(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Int(a), J::Int(b)) => a == b,
            (J::Flt(a), J::Flt(b)) => near(*a, *b),
            (J::Str(a), J::Str(b)) => a == b,
            (J::Arr(a), J::Arr(b)) => a == b,
            (J::Obj(a), J::Obj(b)) => {
                a.len() == b.len()
                    && if a.iter().zip(b).all(|(x, y)| x.0 == y.0) {
                        a.iter().zip(b).all(|(x, y)| x.1 == y.1)
                    } else {
                        a.iter()
                            .all(|(k, v)| b.iter().any(|(l, w)| k == l && v == w))
                            && b.iter().all(|(k, _)| a.iter().any(|(l, _)| k == l))
                    }
            }
            _ => false,
        }
    }
}

impl J {
    /// Whether a string or a name of this value was not UTF-8.
    pub fn has_mark(&self) -> bool {
        match self {
            J::Str(s) => s.contains(MARK),
            J::Arr(a) => a.iter().any(J::has_mark),
            J::Obj(m) => m.iter().any(|(k, x)| k.contains(MARK) || x.has_mark()),
            _ => false,
        }
    }
    /// Whether every float of this value is read back as itself by a reader that is not exact in
    /// the last digits (serde_json without `float_roundtrip`); integers beyond 64 bits are read as floats.
    pub fn short_floats(&self) -> bool {
        match self {
            J::Flt(f) => {
                let a = f.abs();
                *f == 0.0 || (a < 9007199254740992.0 && (a * 1024.0).fract() == 0.0)
            }
            J::Int(i) => *i >= i64::MIN as i128 && *i <= u64::MAX as i128,
            J::Arr(a) => a.iter().all(J::short_floats),
            J::Obj(m) => m.iter().all(|(_, x)| x.short_floats()),
            _ => true,
        }
    }
    pub fn obj() -> J {
        J::Obj(Vec::new())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(m) => m.iter_mut().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn set(&mut self, k: impl Into<String>, v: J) {
        let k = k.into();
        if let J::Obj(m) = self {
            if let Some(e) = m.iter_mut().find(|(n, _)| *n == k) {
                e.1 = v;
            } else {
                m.push((k, v));
            }
        }
    }
    pub fn remove(&mut self, k: &str) -> Option<J> {
        match self {
            J::Obj(m) => m.iter().position(|(n, _)| n == k).map(|i| m.remove(i).1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn members(&self) -> &[(String, J)] {
        match self {
            J::Obj(m) => m,
            _ => &[],
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            J::Flt(f) => *f as i128,
            _ => 0,
        }
    }
    pub fn f64(&self) -> f64 {
        match self {
            J::Int(i) => *i as f64,
            J::Flt(f) => *f,
            _ => 0.0,
        }
    }
    /// Sorts the members of every object, leaving arrays as they are.
    pub fn sorted(&self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.iter().map(J::sorted).collect()),
            J::Obj(m) => {
                let mut m: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.sorted())).collect();
                m.sort_by(|a, b| a.0.cmp(&b.0));
                J::Obj(m)
            }
            x => x.clone(),
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        write(self, &mut o, &Style::default(), &mut Rng::new(0));
        o
    }
    pub fn depth(&self) -> usize {
        match self {
            J::Arr(a) => 1 + a.iter().map(J::depth).max().unwrap_or(0),
            J::Obj(m) => 1 + m.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn to_value(&self) -> serde_json::Value {
        use serde_json::Value as V;
        match self {
            J::Null => V::Null,
            J::Bool(b) => V::Bool(*b),
            J::Int(i) => {
                if let Ok(x) = u64::try_from(*i) {
                    V::from(x)
                } else if let Ok(x) = i64::try_from(*i) {
                    V::from(x)
                } else {
                    V::from(*i as f64)
                }
            }
            J::Flt(f) => V::from(*f),
            J::Str(s) => V::String(s.clone()),
            J::Arr(a) => V::Array(a.iter().map(J::to_value).collect()),
            J::Obj(m) => V::Object(m.iter().map(|(k, v)| (k.clone(), v.to_value())).collect()),
        }
    }
    pub fn from_value(v: &serde_json::Value) -> J {
        use serde_json::Value as V;
        match v {
            V::Null => J::Null,
            V::Bool(b) => J::Bool(*b),
            V::Number(n) => {
                if let Some(i) = n.as_i64() {
                    J::Int(i as i128)
                } else if let Some(u) = n.as_u64() {
                    J::Int(u as i128)
                } else {
                    J::Flt(n.as_f64().unwrap_or(f64::NAN))
                }
            }
            V::String(s) => J::Str(s.clone()),
            V::Array(a) => J::Arr(a.iter().map(J::from_value).collect()),
            V::Object(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), J::from_value(v))).collect()),
        }
    }
}

/// Path and both sides of the first difference.
pub fn diff(a: &J, b: &J) -> Option<(Vec<String>, String)> {
    fn short(j: &J) -> String {
        let mut t = j.text();
        if t.len() > 200 {
            let mut n = 200;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n);
            t.push('…');
        }
        t
    }
    fn go(a: &J, b: &J, p: &mut Vec<String>) -> Option<(Vec<String>, String)> {
        if a == b {
            return None;
        }
        match (a, b) {
            (J::Obj(x), J::Obj(y)) => {
                for (k, v) in x {
                    p.push(k.clone());
                    match b.get(k) {
                        None => return Some((p.clone(), format!("{} became absent", short(v)))),
                        Some(w) => {
                            if let Some(d) = go(v, w, p) {
                                return Some(d);
                            }
                        }
                    }
                    p.pop();
                }
                for (k, v) in y {
                    if a.get(k).is_none() {
                        p.push(k.clone());
                        return Some((p.clone(), format!("absent became {}", short(v))));
                    }
                }
                Some((p.clone(), "objects differ".into()))
            }
            (J::Arr(x), J::Arr(y)) => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    p.push(i.to_string());
                    if let Some(d) = go(v, w, p) {
                        return Some(d);
                    }
                    p.pop();
                }
                Some((p.clone(), format!("{} became {}", short(a), short(b))))
            }
            _ => Some((p.clone(), format!("{} became {}", short(a), short(b)))),
        }
    }
    go(a, b, &mut Vec::new())
}

/// All differences (up to a limit), for the checks that only judge some of the members.
pub fn diffs(a: &J, b: &J) -> Vec<(Vec<String>, String)> {
    fn go(a: &J, b: &J, p: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
        if out.len() > 200 || a == b {
            return;
        }
        match (a, b) {
            (J::Obj(x), J::Obj(y)) => {
                for (k, v) in x {
                    p.push(k.clone());
                    match b.get(k) {
                        None => out.push((p.clone(), format!("{} became absent", v.text()))),
                        Some(w) => go(v, w, p, out),
                    }
                    p.pop();
                }
                for (k, v) in y {
                    if a.get(k).is_none() {
                        p.push(k.clone());
                        out.push((p.clone(), format!("absent became {}", v.text())));
                        p.pop();
                    }
                }
            }
            (J::Arr(x), J::Arr(y)) if x.len() == y.len() => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    p.push(i.to_string());
                    go(v, w, p, out);
                    p.pop();
                }
            }
            _ => out.push((p.clone(), format!("{} became {}", a.text(), b.text()))),
        }
    }
    let mut out = Vec::new();
    go(a, b, &mut Vec::new(), &mut out);
    out
}

// ---------------------------------------------------------------- writing

/// How another implementation may spell the same JSON text.
#[derive(Clone, Copy, Default, Debug)]
pub struct Style {
    pub white: u8,
    pub escape: u8,
    pub shuffle: bool,
    pub floats: bool,
}

fn ws(o: &mut String, st: &Style, r: &mut Rng) {
    if st.white > 0 && r.below(4) < st.white as u64 {
        for _ in 0..=r.below(2) {
            o.push([' ', '\n', '\t', '\r'][r.below(4) as usize]);
        }
    }
}

pub fn write_str(t: &str, o: &mut String, st: &Style, r: &mut Rng) {
    use std::fmt::Write;
    o.push('"');
    for c in t.chars() {
        let esc = st.escape > 0 && r.below(8) < st.escape as u64;
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '/' if esc => o.push_str("\\/"),
            '\n' if !esc => o.push_str("\\n"),
            '\r' if !esc => o.push_str("\\r"),
            '\t' if !esc => o.push_str("\\t"),
            '\u{8}' if !esc => o.push_str("\\b"),
            '\u{c}' if !esc => o.push_str("\\f"),
            c if (c as u32) < 0x20 || esc => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.below(2) == 0 {
                        let _ = write!(o, "\\u{u:04x}");
                    } else {
                        let _ = write!(o, "\\u{u:04X}");
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn write(j: &J, o: &mut String, st: &Style, r: &mut Rng) {
    use std::fmt::Write;
    match j {
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Int(i) => {
            let _ = write!(o, "{i}");
        }
        J::Flt(f) => {
            if !f.is_finite() {
                o.push_str("null");
            } else if st.floats && r.below(3) == 0 {
                let _ = write!(o, "{f:e}");
            } else {
                let _ = write!(o, "{f:?}");
            }
        }
        J::Str(t) => write_str(t, o, st, r),
        J::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(o, st, r);
                write(x, o, st, r);
                ws(o, st, r);
            }
            if a.is_empty() {
                ws(o, st, r);
            }
            o.push(']');
        }
        J::Obj(m) => {
            let mut idx: Vec<usize> = (0..m.len()).collect();
            if st.shuffle {
                for i in (1..idx.len()).rev() {
                    let k = r.below(i as u64 + 1) as usize;
                    idx.swap(i, k);
                }
            }
            o.push('{');
            for (n, i) in idx.iter().enumerate() {
                if n > 0 {
                    o.push(',');
                }
                ws(o, st, r);
                write_str(&m[*i].0, o, st, r);
                ws(o, st, r);
                o.push(':');
                ws(o, st, r);
                write(&m[*i].1, o, st, r);
                ws(o, st, r);
            }
            if m.is_empty() {
                ws(o, st, r);
            }
            o.push('}');
        }
    }
}

// ---------------------------------------------------------------- strict parsing

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// Not one JSON text.
    Syntax(usize, &'static str),
    /// The text ends too early.
    Eof,
    /// Grammatical, but no implementation has to take it (lone surrogates, huge numbers, depth).
    Unsure(&'static str),
}

pub struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
    /// Whether a string that is not UTF-8 is marked instead of refused, and whether one was.
    mark: bool,
    marked: bool,
}

/// What a string that was not UTF-8 begins with.
pub const MARK: char = '\u{10fffd}';

/// Parses one JSON text (RFC 8259) with optional white space around it.
pub fn parse(b: &[u8]) -> Result<J, Bad> {
    parse_with(b, false).map(|x| x.0)
}

/// Marks the strings that are not UTF-8; tells whether there are any.
pub fn parse_marked(b: &[u8]) -> Result<(J, bool), Bad> {
    parse_with(b, true)
}

fn parse_with(b: &[u8], mark: bool) -> Result<(J, bool), Bad> {
    let mut p = P { b, i: 0, depth: 0, mark, marked: false };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i < b.len() {
        return Err(Bad::Syntax(p.i, "trailing bytes"));
    }
    Ok((v, p.marked))
}

impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\n' | b'\t' | b'\r')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &[u8], v: J) -> Result<J, Bad> {
        for c in t {
            match self.b.get(self.i) {
                None => return Err(Bad::Eof),
                Some(x) if x == c => self.i += 1,
                _ => return Err(Bad::Syntax(self.i, "literal")),
            }
        }
        Ok(v)
    }
    fn value(&mut self) -> Result<J, Bad> {
        match self.b.get(self.i) {
            None => Err(Bad::Eof),
            Some(b'n') => self.lit(b"null", J::Null),
            Some(b't') => self.lit(b"true", J::Bool(true)),
            Some(b'f') => self.lit(b"false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'-' | b'0'..=b'9') => self.number(),
            Some(b'[') => {
                self.enter()?;
                self.i += 1;
                let mut out = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(J::Arr(out));
                }
                loop {
                    self.ws();
                    out.push(self.value()?);
                    self.ws();
                    match self.b.get(self.i) {
                        None => return Err(Bad::Eof),
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            self.depth -= 1;
                            return Ok(J::Arr(out));
                        }
                        _ => return Err(Bad::Syntax(self.i, "array")),
                    }
                }
            }
            Some(b'{') => {
                self.enter()?;
                self.i += 1;
                let mut out = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(J::Obj(out));
                }
                loop {
                    self.ws();
                    match self.b.get(self.i) {
                        None => return Err(Bad::Eof),
                        Some(b'"') => {}
                        _ => return Err(Bad::Syntax(self.i, "member name")),
                    }
                    let k = self.string()?;
                    self.ws();
                    match self.b.get(self.i) {
                        None => return Err(Bad::Eof),
                        Some(b':') => self.i += 1,
                        _ => return Err(Bad::Syntax(self.i, "colon")),
                    }
                    self.ws();
                    let v = self.value()?;
                    out.push((k, v));
                    self.ws();
                    match self.b.get(self.i) {
                        None => return Err(Bad::Eof),
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            self.depth -= 1;
                            return Ok(J::Obj(out));
                        }
                        _ => return Err(Bad::Syntax(self.i, "object")),
                    }
                }
            }
            _ => Err(Bad::Syntax(self.i, "value")),
        }
    }
    fn enter(&mut self) -> Result<(), Bad> {
        self.depth += 1;
        if self.depth > 120 {
            return Err(Bad::Unsure("depth"));
        }
        Ok(())
    }
    fn hex4(&mut self) -> Result<u32, Bad> {
        let mut v = 0;
        for _ in 0..4 {
            let c = *self.b.get(self.i).ok_or(Bad::Eof)?;
            let d = (c as char)
                .to_digit(16)
                .ok_or(Bad::Syntax(self.i, "hex"))?;
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, Bad> {
        self.i += 1;
        let mut out: Vec<u8> = Vec::new();
        let mut lone = false;
        loop {
            let c = *self.b.get(self.i).ok_or(Bad::Eof)?;
            self.i += 1;
            match c {
                b'"' => {
                    let t = match String::from_utf8(out) {
                        Ok(t) => t,
                        Err(e) if self.mark => {
                            self.marked = true;
                            format!("{MARK}{}", String::from_utf8_lossy(e.as_bytes()))
                        }
                        Err(_) => return Err(Bad::Syntax(self.i, "utf-8")),
                    };
                    return if lone {
                        Err(Bad::Unsure("lone surrogate"))
                    } else {
                        Ok(t)
                    };
                }
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or(Bad::Eof)?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let u = self.hex4()?;
                            let c = if (0xd800..0xdc00).contains(&u) {
                                if self.b.get(self.i) == Some(&b'\\')
                                    && self.b.get(self.i + 1) == Some(&b'u')
                                {
                                    let save = self.i;
                                    self.i += 2;
                                    let l = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&l) {
                                        char::from_u32(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00))
                                    } else {
                                        self.i = save;
                                        None
                                    }
                                } else {
                                    None
                                }
                            } else {
                                char::from_u32(u)
                            };
                            match c {
                                Some(c) => {
                                    let mut b = [0; 4];
                                    out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                                }
                                None => lone = true,
                            }
                        }
                        _ => return Err(Bad::Syntax(self.i, "escape")),
                    }
                }
                0..=0x1f => return Err(Bad::Syntax(self.i, "control character")),
                c => out.push(c),
            }
        }
    }
    fn number(&mut self) -> Result<J, Bad> {
        let st = self.i;
        let neg = self.b[self.i] == b'-';
        if neg {
            self.i += 1;
        }
        match self.b.get(self.i) {
            None => return Err(Bad::Eof),
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                while matches!(self.b.get(self.i), Some(b'0'..=b'9')) {
                    self.i += 1;
                }
            }
            _ => return Err(Bad::Syntax(self.i, "number")),
        }
        let mut float = false;
        if self.b.get(self.i) == Some(&b'.') {
            float = true;
            self.i += 1;
            let d = self.i;
            while matches!(self.b.get(self.i), Some(b'0'..=b'9')) {
                self.i += 1;
            }
            if d == self.i {
                return Err(if self.i == self.b.len() {
                    Bad::Eof
                } else {
                    Bad::Syntax(self.i, "fraction")
                });
            }
        }
        if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
            float = true;
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            let d = self.i;
            while matches!(self.b.get(self.i), Some(b'0'..=b'9')) {
                self.i += 1;
            }
            if d == self.i {
                return Err(if self.i == self.b.len() {
                    Bad::Eof
                } else {
                    Bad::Syntax(self.i, "exponent")
                });
            }
        }
        let t = std::str::from_utf8(&self.b[st..self.i]).unwrap_or("0");
        if !float {
            if let Ok(i) = t.parse::<i128>() {
                if neg && i == 0 {
                    return Ok(J::Flt(-0.0));
                }
                if (neg && i >= i64::MIN as i128) || (!neg && i <= u64::MAX as i128) {
                    return Ok(J::Int(i));
                }
            }
        }
        let f: f64 = t.parse().map_err(|_| Bad::Unsure("number"))?;
        if !f.is_finite() {
            return Err(Bad::Unsure("number out of range"));
        }
        Ok(J::Flt(f))
    }
}
