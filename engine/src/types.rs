//! Value types used by generated definitions, and the dynamic value everything is compared as.
use std::ffi::{OsStr, OsString};
use std::fmt;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::str::FromStr;

/// A parsed value, independent of the types of a definition.
#[derive(Clone, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Leaf(Vec<u8>),
    Struct(Vec<(String, Val)>),
    /// A flattened struct.
    Flat(Vec<(String, Val)>),
    Variant(String, Box<Val>),
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Unit => f.write_str("()"),
            Val::Bool(b) => write!(f, "{b}"),
            Val::None => f.write_str("None"),
            Val::Some(v) => write!(f, "Some({v:?})"),
            Val::List(v) => f.debug_list().entries(v).finish(),
            Val::Leaf(b) => write!(f, "`{}`", b.escape_ascii()),
            Val::Struct(fs) | Val::Flat(fs) => {
                f.write_str("{")?;
                for (i, (n, v)) in fs.iter().enumerate() {
                    write!(f, "{}{n}: {v:?}", if i == 0 { "" } else { ", " })?;
                }
                f.write_str("}")
            }
            Val::Variant(n, v) => write!(f, "{n}({v:?})"),
        }
    }
}

impl Val {
    /// Sort fields by name, at every level.
    pub fn sorted(self) -> Val {
        match self {
            Val::Struct(fs) | Val::Flat(fs) => {
                let mut out: Vec<_> = fs.into_iter().map(|(n, v)| (n, v.sorted())).collect();
                out.sort_by(|a, b| a.0.cmp(&b.0));
                Val::Struct(out)
            }
            Val::Some(v) => Val::Some(Box::new(v.sorted())),
            Val::Variant(n, v) => match v.sorted() {
                Val::Struct(fs) if fs.is_empty() => Val::Variant(n, Box::new(Val::Unit)),
                v => Val::Variant(n, Box::new(v)),
            },
            v => v,
        }
    }

    /// Merge flattened structs into their parent and sort fields by name.
    pub fn normal(self) -> Val {
        match self {
            Val::Struct(fs) | Val::Flat(fs) => {
                let mut out = vec![];
                fn add(out: &mut Vec<(String, Val)>, fs: Vec<(String, Val)>) {
                    for (n, v) in fs {
                        match v {
                            Val::Flat(inner) => add(out, inner),
                            v => out.push((n, v.normal())),
                        }
                    }
                }
                add(&mut out, fs);
                out.sort_by(|a, b| a.0.cmp(&b.0));
                Val::Struct(out)
            }
            Val::Some(v) => Val::Some(Box::new(v.normal())),
            Val::Variant(n, v) => match v.normal() {
                Val::Struct(fs) if fs.is_empty() => Val::Variant(n, Box::new(Val::Unit)),
                v => Val::Variant(n, Box::new(v)),
            },
            v => v,
        }
    }
}

/// What a parse returned.
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok(Val),
    Help(String),
    Err { msg: String, source: Option<String> },
}

impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

pub type RunFn = fn(&mut dyn Iterator<Item = OsString>) -> Out;

pub trait ToVal {
    fn to_val(&self) -> Val;
}

impl ToVal for bool {
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            Some(v) => Val::Some(Box::new(v.to_val())),
            None => Val::None,
        }
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}

macro_rules! leaf {
    ($($t:ty),*) => { $(impl ToVal for $t {
        fn to_val(&self) -> Val { Val::Leaf(format!("{self:?}").into_bytes()) }
    })* };
}
leaf!(u8, i32, i64, f64, char, std::num::NonZeroU32);
impl ToVal for String {
    fn to_val(&self) -> Val {
        Val::Leaf(self.as_bytes().to_vec())
    }
}
impl ToVal for OsString {
    fn to_val(&self) -> Val {
        Val::Leaf(self.as_bytes().to_vec())
    }
}
impl ToVal for Box<OsStr> {
    fn to_val(&self) -> Val {
        Val::Leaf(self.as_bytes().to_vec())
    }
}
impl ToVal for PathBuf {
    fn to_val(&self) -> Val {
        Val::Leaf(self.as_os_str().as_bytes().to_vec())
    }
}

/// `FromStr` only, with a `String` error.
#[derive(Default, Clone)]
pub struct Even(pub u32);
impl FromStr for Even {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s.parse::<u32>() {
            Ok(n) if n % 2 == 0 => Ok(Even(n)),
            Ok(n) => Err(format!("{n} is odd")),
            Err(e) => Err(format!("not a number: {e}")),
        }
    }
}
impl fmt::Display for Even {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl ToVal for Even {
    fn to_val(&self) -> Val {
        Val::Leaf(format!("even:{}", self.0).into_bytes())
    }
}

/// As the type `Cust` that is declared next to definitions, see `emit`.
#[derive(Default, Clone)]
pub struct Cust(pub String);
impl FromStr for Cust {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.contains(char::is_uppercase) {
            Err(format!("upper case in {s:?}"))
        } else {
            Ok(Cust(s.into()))
        }
    }
}
impl ToVal for Cust {
    fn to_val(&self) -> Val {
        Val::Leaf([b"cust:", self.0.as_bytes()].concat())
    }
}

#[derive(Debug)]
pub struct TagErr(usize);
impl fmt::Display for TagErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "no tag in {} bytes", self.0)
    }
}
impl std::error::Error for TagErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&Cause)
    }
}
#[derive(Debug)]
struct Cause;
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the cause of a cause")
    }
}
impl std::error::Error for Cause {}

/// The text of an error's source, which must be the conversion error itself.
pub fn source_text(e: &(dyn std::error::Error + 'static)) -> String {
    let t = e.to_string();
    if t.starts_with("no tag in ") && !e.is::<TagErr>() { t + " (not the original)" } else { t }
}

/// `TryFrom<&OsStr>` only: the text must contain a `t`.
#[derive(Default, Clone)]
pub struct Tagged(pub Vec<u8>);
impl TryFrom<&OsStr> for Tagged {
    type Error = TagErr;
    fn try_from(s: &OsStr) -> Result<Self, TagErr> {
        let b = s.as_bytes();
        if b.contains(&b't') { Ok(Tagged(b.to_vec())) } else { Err(TagErr(b.len())) }
    }
}
impl fmt::Display for Tagged {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(&self.0))
    }
}
impl ToVal for Tagged {
    fn to_val(&self) -> Val {
        Val::Leaf([b"tag:", &self.0[..]].concat())
    }
}

/// Both `TryFrom<&OsStr>` and `FromStr`: the former wins.
#[derive(Default, Clone)]
pub struct Dual(pub Vec<u8>, pub bool);
impl TryFrom<&OsStr> for Dual {
    type Error = &'static str;
    fn try_from(s: &OsStr) -> Result<Self, &'static str> {
        if s.is_empty() { Err("nothing here") } else { Ok(Dual(s.as_bytes().to_vec(), true)) }
    }
}
impl FromStr for Dual {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(Dual(s.as_bytes().to_vec(), false))
    }
}
impl fmt::Display for Dual {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(&self.0))
    }
}
impl ToVal for Dual {
    fn to_val(&self) -> Val {
        Val::Leaf([if self.1 { &b"os:"[..] } else { b"str:" }, &self.0[..]].concat())
    }
}

/// Infallible `From<&OsStr>`.
#[derive(Default, Clone)]
pub struct Infal(pub Vec<u8>);
impl From<&OsStr> for Infal {
    fn from(s: &OsStr) -> Self {
        Infal(s.as_bytes().to_vec())
    }
}
impl fmt::Display for Infal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(&self.0))
    }
}
impl ToVal for Infal {
    fn to_val(&self) -> Val {
        Val::Leaf([b"inf:", &self.0[..]].concat())
    }
}
