//! Description of a command line definition (what the user writes with the derive macros).

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Str,
    OsStr,
    Path,
    U8,
    I32,
    I64,
    F64,
    Char,
    Bool,
    Nz,
    /// `FromStr` only, with a `String` error.
    Even,
    /// `TryFrom<&OsStr>` only, with an `Error` error.
    Tagged,
    /// Both `TryFrom<&OsStr>` and `FromStr`: the former must win.
    Dual,
    /// Infallible `From<&OsStr>`.
    Infal,
    /// `Box<OsStr>`, from the standard library.
    BoxOs,
    /// `FromStr` only, with the error type of the library itself. Declared next to the definition.
    Cust,
    /// derive(ValueEnum); index into `Spec::venums`.
    Venum(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Bool,
    Value,
    Opt,
    OptOpt,
    Vec,
    OptVec,
}

impl Kind {
    pub fn multi(self) -> bool {
        matches!(self, Kind::Vec | Kind::OptVec)
    }
    pub fn takes_value(self) -> bool {
        !matches!(self, Kind::Bool | Kind::OptOpt)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hyphen {
    No,
    Any,
    Num,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dflt {
    /// `default_value = ".."`
    Str(String),
    /// `default_value_t` without a value.
    Inherit,
    /// `default_value_t = EXPR`; the text is the raw value that `EXPR` denotes.
    Expr { expr: String, raw: String },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Arg {
    /// The words of the field identifier: `["config", "file"]` for `config_file`.
    pub words: Vec<String>,
    /// The identifier, if it is not the words joined by `_`.
    pub id: Option<String>,
    pub kind: Kind,
    pub ty: Ty,
    pub named: bool,
    /// `Some(None)` is `long` without a value.
    pub long: Option<Option<String>>,
    pub short: Option<Option<char>>,
    pub aliases: Vec<String>,
    pub short_aliases: Vec<char>,
    pub value_name: Option<String>,
    pub req_eq: bool,
    pub global: bool,
    pub hyphen: Hyphen,
    pub ignore_case: bool,
    pub trailing: bool,
    pub last: bool,
    pub delim: Option<char>,
    pub dflt: Option<Dflt>,
    pub required: bool,
    pub exclusive: bool,
    /// Field indices in the same struct.
    pub requires: Vec<usize>,
    pub conflicts: Vec<usize>,
    pub hide: bool,
    pub doc: Vec<String>,
    /// Which of several equivalent attribute spellings to emit.
    pub style: u8,
    /// How attributes are ordered, grouped and surrounded. 0 is plain.
    pub order: u32,
}

impl Arg {
    pub fn new(words: &[&str], kind: Kind, ty: Ty) -> Arg {
        Arg {
            words: words.iter().map(|s| s.to_string()).collect(),
            id: None,
            kind,
            ty,
            named: false,
            long: None,
            short: None,
            aliases: vec![],
            short_aliases: vec![],
            value_name: None,
            req_eq: false,
            global: false,
            hyphen: Hyphen::No,
            ignore_case: false,
            trailing: false,
            last: false,
            delim: None,
            dflt: None,
            required: false,
            exclusive: false,
            requires: vec![],
            conflicts: vec![],
            hide: false,
            doc: vec![],
            style: 0,
            order: 0,
        }
    }
    pub fn ident(&self) -> String {
        raw_ident(&self.plain_ident())
    }
    pub fn plain_ident(&self) -> String {
        self.id.clone().unwrap_or_else(|| self.words.join("_"))
    }
    pub fn long_name(&self) -> Option<String> {
        match &self.long {
            None => None,
            Some(None) => Some(self.words.join("-")),
            Some(Some(s)) => Some(s.clone()),
        }
    }
    pub fn short_name(&self) -> Option<char> {
        match self.short {
            None => None,
            Some(None) => self.words.join("-").chars().next(),
            Some(Some(c)) => Some(c),
        }
    }
    /// All long names, primary first.
    pub fn longs(&self) -> Vec<String> {
        self.long_name().into_iter().chain(self.aliases.iter().cloned()).collect()
    }
    pub fn shorts(&self) -> Vec<char> {
        self.short_name().into_iter().chain(self.short_aliases.iter().copied()).collect()
    }
    pub fn value_name(&self) -> String {
        match &self.value_name {
            Some(s) => s.clone(),
            None => self.words.join("_").to_uppercase(),
        }
    }
    /// Required in the sense of "absence is an error".
    pub fn is_required(&self) -> bool {
        self.dflt.is_none() && (self.required || self.kind == Kind::Value)
    }
    /// The description used in messages and help, as shown in the repository's tests.
    pub fn desc(&self) -> String {
        let vn = self.value_name();
        if self.named {
            let mut s = match (self.short_name(), self.long_name()) {
                (Some(c), Some(l)) => format!("-{c}, --{l}"),
                (None, Some(l)) => format!("--{l}"),
                (Some(c), None) => format!("-{c}"),
                (None, None) => String::new(),
            };
            if self.kind == Kind::OptOpt {
                s += &format!("[=<{vn}>]");
            } else if self.kind.takes_value() {
                s += &format!("{}<{vn}>", if self.req_eq { '=' } else { ' ' });
            }
            s
        } else {
            let mut s = if self.is_required() { format!("<{vn}>") } else { format!("[{vn}]") };
            if self.kind.multi() {
                s += "...";
            }
            s
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Field {
    Arg(Arg),
    Flat { ident: String, st: usize },
    Sub { ident: String, en: usize, optional: bool },
}

impl Field {
    pub fn ident(&self) -> String {
        match self {
            Field::Arg(a) => a.ident(),
            Field::Flat { ident, .. } | Field::Sub { ident, .. } => ident.clone(),
        }
    }
    /// The identifier without `r#`.
    pub fn plain(&self) -> String {
        match self {
            Field::Arg(a) => a.plain_ident(),
            Field::Flat { ident, .. } | Field::Sub { ident, .. } => ident.clone(),
        }
    }
    pub fn arg(&self) -> Option<&Arg> {
        match self {
            Field::Arg(a) => Some(a),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Struct {
    pub name: String,
    pub fields: Vec<Field>,
    pub doc: Vec<String>,
    /// `command(long_about = "..")`
    pub long_about: Option<String>,
    /// `command(after_long_help = "..")`
    pub after: Option<String>,
    /// How the two are written.
    pub form: u8,
    /// Body of an enum struct variant: not a type on its own.
    pub inline: bool,
}

impl Struct {
    pub fn args(&self) -> impl Iterator<Item = (usize, &Arg)> {
        self.fields.iter().enumerate().filter_map(|(i, f)| f.arg().map(|a| (i, a)))
    }
    pub fn sub(&self) -> Option<(usize, usize, bool)> {
        self.fields.iter().enumerate().find_map(|(i, f)| match f {
            Field::Sub { en, optional, .. } => Some((i, *en, *optional)),
            _ => None,
        })
    }
    pub fn flats(&self) -> impl Iterator<Item = (usize, usize)> {
        self.fields.iter().enumerate().filter_map(|(i, f)| match f {
            Field::Flat { st, .. } => Some((i, *st)),
            _ => None,
        })
    }
    /// Positional arguments in the order they are filled.
    pub fn positionals(&self) -> Vec<usize> {
        let pos = |f: &dyn Fn(&Arg) -> bool| -> Vec<usize> {
            self.args().filter(|(_, a)| !a.named && f(a)).map(|(i, _)| i).collect()
        };
        let mut out = pos(&|a| !a.kind.multi() && !a.last);
        out.extend(pos(&|a| a.kind.multi() && !a.last));
        out.extend(pos(&|a| a.last));
        out
    }
    /// The processed doc text: paragraphs joined by newlines.
    pub fn about(&self) -> String {
        match &self.long_about {
            Some(s) => s.clone(),
            None => doc_text(&self.doc),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub words: Vec<String>,
    /// The identifier, if it is not the words in PascalCase.
    pub id: Option<String>,
    pub body: Body,
    /// Doc of a unit variant.
    pub doc: Vec<String>,
    pub after: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Body {
    Unit,
    Newtype(usize),
    Inline(usize),
}

impl Body {
    pub fn st(self) -> Option<usize> {
        match self {
            Body::Unit => None,
            Body::Newtype(s) | Body::Inline(s) => Some(s),
        }
    }
}

impl Variant {
    pub fn plain_ident(&self) -> String {
        self.id.clone().unwrap_or_else(|| pascal(&self.words))
    }
    pub fn ident(&self) -> String {
        raw_ident(&self.plain_ident())
    }
    pub fn cmd(&self) -> String {
        self.words.join("-")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SubEnum {
    pub name: String,
    pub variants: Vec<Variant>,
}

pub const RENAMES: [&str; 8] = [
    "camelCase",
    "kebab-case",
    "PascalCase",
    "SCREAMING_SNAKE_CASE",
    "snake_case",
    "lower",
    "UPPER",
    "verbatim",
];

#[derive(Clone, Debug, PartialEq)]
pub struct VVariant {
    pub words: Vec<String>,
    pub id: Option<String>,
    pub name: Option<String>,
}

impl VVariant {
    pub fn plain_ident(&self) -> String {
        self.id.clone().unwrap_or_else(|| pascal(&self.words))
    }
    pub fn ident(&self) -> String {
        raw_ident(&self.plain_ident())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct VEnum {
    pub name: String,
    pub rename: Option<usize>,
    /// It has a parameter.
    pub param: bool,
    /// Other conversions that it has as well, which must not be used: bits for `FromStr`,
    /// `From<&OsStr>` and `Display`.
    pub decoys: u8,
    pub variants: Vec<VVariant>,
}

impl VEnum {
    pub fn value_name(&self, i: usize) -> String {
        let v = &self.variants[i];
        if let Some(n) = &v.name {
            return n.clone();
        }
        let w = &v.words;
        match RENAMES[self.rename.unwrap_or(1)] {
            "camelCase" => {
                let mut s = w[0].clone();
                for x in &w[1..] {
                    s += &cap(x);
                }
                s
            }
            "kebab-case" => w.join("-"),
            "PascalCase" => pascal(w),
            "verbatim" => v.plain_ident(),
            "SCREAMING_SNAKE_CASE" => w.join("_").to_uppercase(),
            "snake_case" => w.join("_"),
            "lower" => v.plain_ident().to_lowercase(),
            _ => v.plain_ident().to_uppercase(),
        }
    }
    pub fn names(&self) -> Vec<String> {
        (0..self.variants.len()).map(|i| self.value_name(i)).collect()
    }
    pub fn no_upper(&self) -> bool {
        self.names().iter().all(|n| !n.bytes().any(|b| b.is_ascii_uppercase()))
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Spec {
    /// `structs[0]` is the top-level parser.
    pub structs: Vec<Struct>,
    pub enums: Vec<SubEnum>,
    pub venums: Vec<VEnum>,
}

pub const KEYWORDS: &[&str] = &[
    "type", "match", "loop", "use", "in", "fn", "move", "async", "await", "dyn", "ref", "where",
    "for", "if", "mod", "pub", "static", "const", "struct", "enum", "impl", "trait", "as", "box",
    "try", "yield", "do", "final", "macro", "override", "priv", "abstract", "become", "typeof",
    "unsized", "virtual", "let", "mut", "return", "while", "else", "true", "false", "unsafe",
    "extern", "break", "continue", "gen",
];

pub fn raw_ident(s: &str) -> String {
    if KEYWORDS.contains(&s) { format!("r#{s}") } else { s.to_string() }
}

pub fn cap(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}

pub fn pascal(w: &[String]) -> String {
    w.iter().map(|x| cap(x)).collect()
}

/// The words of an identifier, in lower case: `_` separates them, an upper case letter after a
/// lower case one starts another (digits in between do not matter), and so does the last of
/// several upper case ones, if lower case follows.
pub fn split_words(id: &str) -> Vec<String> {
    let mut out = vec![];
    for part in id.split('_') {
        let c: Vec<char> = part.chars().collect();
        let mut cut = vec![0];
        for i in 1..c.len() {
            if !c[i].is_uppercase() {
                continue;
            }
            let start = *cut.last().unwrap();
            // The last cased character of the current word.
            let prev = c[start..i].iter().rev().find(|x| x.is_lowercase() || x.is_uppercase());
            let next_lower = c.get(i + 1).is_some_and(|x| x.is_lowercase());
            match prev {
                Some(p) if p.is_lowercase() && c[start..i].len() > 0 => cut.push(i),
                Some(_) if next_lower => cut.push(i),
                _ => {}
            }
        }
        cut.push(c.len());
        for w in cut.windows(2) {
            let s: String = c[w[0]..w[1]].iter().collect();
            if !s.is_empty() {
                out.push(s.to_lowercase());
            }
        }
    }
    out
}

/// Doc comments: lines of a paragraph are joined by a space, paragraphs by a newline.
pub fn doc_text(lines: &[String]) -> String {
    let mut paras: Vec<String> = vec![];
    let mut cur: Vec<&str> = vec![];
    for l in lines {
        let t = l.trim_matches(|c: char| c.is_ascii_whitespace());
        if t.is_empty() {
            if !cur.is_empty() {
                paras.push(cur.join(" "));
                cur.clear();
            }
        } else {
            cur.push(t);
        }
    }
    if !cur.is_empty() {
        paras.push(cur.join(" "));
    }
    paras.join("\n")
}
