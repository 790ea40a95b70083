//! The JSON used by Quint's ITF traces: reading and writing specification values.

use crate::z::Z;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<Z> {
        match self {
            J::Num(s) => Z::parse(s),
            J::Obj(m) => Z::parse(m.get("#bigint")?.str()?),
            _ => None,
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut i = 0;
        let j = value(b, &mut i)?;
        ws(b, &mut i);
        (i == b.len()).then_some(j)
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn value(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'n' => lit(b, i, "null", J::Null),
        b't' => lit(b, i, "true", J::Bool(true)),
        b'f' => lit(b, i, "false", J::Bool(false)),
        b'"' => string(b, i).map(J::Str),
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i)? == &b']' {
                    *i += 1;
                    return Some(J::Arr(v));
                }
                if !v.is_empty() {
                    if b[*i] != b',' {
                        return None;
                    }
                    *i += 1;
                }
                v.push(value(b, i)?);
            }
        }
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            let mut first = true;
            loop {
                ws(b, i);
                if b.get(*i)? == &b'}' {
                    *i += 1;
                    return Some(J::Obj(m));
                }
                if !first {
                    if b[*i] != b',' {
                        return None;
                    }
                    *i += 1;
                    ws(b, i);
                }
                first = false;
                let k = string(b, i)?;
                ws(b, i);
                if b.get(*i)? != &b':' {
                    return None;
                }
                *i += 1;
                m.insert(k, value(b, i)?);
            }
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b"+-.".contains(&b[*i])) {
                *i += 1;
            }
            (*i > s).then(|| J::Num(String::from_utf8_lossy(&b[s..*i]).into_owned()))
        }
    }
}
fn lit(b: &[u8], i: &mut usize, s: &str, j: J) -> Option<J> {
    if b[*i..].starts_with(s.as_bytes()) {
        *i += s.len();
        Some(j)
    } else {
        None
    }
}
fn string(b: &[u8], i: &mut usize) -> Option<String> {
    if b.get(*i)? != &b'"' {
        return None;
    }
    *i += 1;
    let mut out = vec![];
    loop {
        match *b.get(*i)? {
            b'"' => {
                *i += 1;
                return String::from_utf8(out).ok();
            }
            b'\\' => {
                *i += 1;
                let c = match *b.get(*i)? {
                    b'n' => '\n',
                    b't' => '\t',
                    b'r' => '\r',
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                        *i += 4;
                        char::from_u32(u32::from_str_radix(h, 16).ok()?)?
                    }
                    c => c as char,
                };
                *i += 1;
                out.extend_from_slice(c.to_string().as_bytes());
            }
            c => {
                out.push(c);
                *i += 1;
            }
        }
    }
}

pub trait ToQuint {
    fn quint(&self, o: &mut String);
    fn itf(&self) -> String {
        let mut s = String::new();
        self.quint(&mut s);
        s
    }
}
pub trait FromQuint: Sized {
    fn from_quint(j: &J) -> Option<Self>;
}
impl ToQuint for Z {
    fn quint(&self, o: &mut String) {
        o.push_str(&format!("{{\"#bigint\":\"{self}\"}}"));
    }
}
impl FromQuint for Z {
    fn from_quint(j: &J) -> Option<Self> {
        j.int()
    }
}
impl ToQuint for bool {
    fn quint(&self, o: &mut String) {
        o.push_str(if *self { "true" } else { "false" });
    }
}
impl FromQuint for bool {
    fn from_quint(j: &J) -> Option<Self> {
        match j {
            J::Bool(b) => Some(*b),
            _ => None,
        }
    }
}
impl<T: ToQuint> ToQuint for Vec<T> {
    fn quint(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            x.quint(o);
        }
        o.push(']');
    }
}
impl<T: FromQuint> FromQuint for Vec<T> {
    fn from_quint(j: &J) -> Option<Self> {
        j.arr()?.iter().map(T::from_quint).collect()
    }
}
