//! Stand-in for the parts of `kserd` which ogma uses (the git dependency is not available offline).
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Copy, Debug)]
pub enum Number {
    Uint(u128),
    Int(i128),
    Float(f64),
}
use Number::*;

impl Number {
    pub fn as_f64(&self) -> f64 {
        match *self {
            Uint(x) => x as f64,
            Int(x) => x as f64,
            Float(x) => x,
        }
    }
    pub fn as_u128(&self) -> Result<u128, String> {
        match *self {
            Uint(x) => Ok(x),
            Int(x) => u128::try_from(x).map_err(|e| e.to_string()),
            Float(x) if x.fract() == 0.0 && x >= 0.0 && x < u128::MAX as f64 => Ok(x as u128),
            _ => Err("not an unsigned integer".into()),
        }
    }
}
impl PartialEq for Number {
    fn eq(&self, o: &Number) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Number {}
impl PartialOrd for Number {
    fn partial_cmp(&self, o: &Number) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Number {
    fn cmp(&self, o: &Number) -> Ordering {
        match (self, o) {
            (Uint(a), Uint(b)) => a.cmp(b),
            (Int(a), Int(b)) => a.cmp(b),
            (Uint(a), Int(b)) => i128::try_from(*a).map_or(Ordering::Greater, |a| a.cmp(b)),
            (Int(a), Uint(b)) => i128::try_from(*b).map_or(Ordering::Less, |b| a.cmp(&b)),
            _ => {
                let (a, b) = (self.as_f64(), o.as_f64());
                a.partial_cmp(&b).unwrap_or_else(|| match (a.is_nan(), b.is_nan()) {
                    (true, true) => Ordering::Equal,
                    (true, false) => Ordering::Less,
                    _ => Ordering::Greater,
                })
            }
        }
    }
}
impl std::hash::Hash for Number {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.as_f64().to_bits().hash(h)
    }
}
impl fmt::Display for Number {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Uint(x) => write!(f, "{x}"),
            Int(x) => write!(f, "{x}"),
            Float(x) => write!(f, "{x}"),
        }
    }
}
impl std::str::FromStr for Number {
    type Err = String;
    fn from_str(s: &str) -> Result<Number, String> {
        if !s.bytes().next().map_or(false, |b| b.is_ascii_digit() || matches!(b, b'-' | b'+' | b'.')) {
            return Err(format!("not a number: {s}"));
        }
        if let Ok(x) = s.parse::<u128>() {
            return Ok(Uint(x));
        }
        if let Ok(x) = s.parse::<i128>() {
            return Ok(Int(x));
        }
        if s.bytes().any(|b| b.is_ascii_alphabetic() && !matches!(b, b'e' | b'E')) {
            return Err(format!("not a number: {s}"));
        }
        s.parse::<f64>().map(Float).map_err(|e| e.to_string())
    }
}
macro_rules! from {
    ($($t:ty => $v:ident),*) => { $(impl From<$t> for Number { fn from(x: $t) -> Number { $v(x as _) } })* };
}
from!(u8 => Uint, u16 => Uint, u32 => Uint, u64 => Uint, u128 => Uint, usize => Uint,
      i8 => Int, i16 => Int, i32 => Int, i64 => Int, i128 => Int, isize => Int, f32 => Float, f64 => Float);

#[derive(Clone, Debug, PartialEq)]
pub enum Value<'a> {
    Unit,
    Bool(bool),
    Num(Number),
    Str(Cow<'a, str>),
    Cntr(BTreeMap<Cow<'a, str>, Kserd<'a>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Kserd<'a> {
    id: Option<String>,
    pub val: Value<'a>,
}

#[derive(Debug)]
pub struct ToKserdErr(String);
#[derive(Debug)]
pub struct InvalidId(String);
impl From<InvalidId> for ToKserdErr {
    fn from(e: InvalidId) -> Self {
        ToKserdErr(e.0)
    }
}

pub trait ToKserd<'a> {
    fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr>;
}

impl<'a> Kserd<'a> {
    pub fn new(val: Value<'a>) -> Self {
        Kserd { id: None, val }
    }
    pub fn with_id<S: Into<String>>(id: S, val: Value<'a>) -> Result<Self, InvalidId> {
        let id = id.into();
        // as documented: identities can not contain these characters
        if id.chars().any(|c| "()[]{}<>\"'=,".contains(c) || c.is_whitespace()) {
            return Err(InvalidId(id));
        }
        Ok(Kserd { id: Some(id), val })
    }
    pub fn new_unit() -> Self {
        Self::new(Value::Unit)
    }
    pub fn new_bool(b: bool) -> Self {
        Self::new(Value::Bool(b))
    }
    pub fn new_string(s: String) -> Self {
        Self::new(Value::Str(s.into()))
    }
    pub fn new_str(s: &'a str) -> Self {
        Self::new(Value::Str(s.into()))
    }
    /// Inline format: one line.
    pub fn as_str(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, s: &mut String) {
        use std::fmt::Write;
        if let Some(id) = &self.id {
            s.push_str(id);
            if !matches!(self.val, Value::Cntr(_)) {
                if matches!(self.val, Value::Unit) {
                    return;
                }
            }
            s.push(' ');
        }
        match &self.val {
            Value::Unit => s.push_str("()"),
            Value::Bool(b) => write!(s, "{b}").unwrap(),
            Value::Num(n) => write!(s, "{n}").unwrap(),
            Value::Str(x) => write!(s, "{x:?}").unwrap(),
            Value::Cntr(m) => {
                s.push('(');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    write!(s, "{k} = ").unwrap();
                    v.write(s);
                }
                s.push(')');
            }
        }
    }
}
macro_rules! num_eq { ($($t:ty)*) => { $(impl PartialEq<$t> for Number {
    fn eq(&self, o: &$t) -> bool {
        *self == Number::from(*o)
    }
})* } }
num_eq!(i32 f64);
