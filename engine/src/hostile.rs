//! The same definition under other names and in other places.
use crate::emit::Emit;
use crate::pairs::pin;
use crate::spec::*;
use crate::src::Src;
use crate::types::{Out, Val};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

/// Where and how the second definition is written.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Env {
    /// 0: in a module, 1: in a function, 2: by a `macro_rules`, 3: by one inside a function.
    pub style: usize,
    pub no_prelude: bool,
    pub edition: usize,
    /// Bits of `shadows`.
    pub shadow: u64,
    pub seed: u64,
}

pub const EDITIONS: [&str; 3] = ["2024", "2021", "2018"];

impl Env {
    pub fn tag(&self) -> String {
        format!(
            "{} {} {} {} {}",
            self.style, self.no_prelude as u8, self.edition, self.shadow, self.seed
        )
    }
    pub fn parse(tag: &str) -> Option<Env> {
        let v: Vec<u64> = tag.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let [style, np, edition, shadow, seed] = v[..] else {
            return None;
        };
        Some(Env {
            style: style as usize,
            no_prelude: np == 1,
            edition: edition as usize,
            shadow,
            seed,
        })
    }
}

const FIELD_NAMES: &[&str] = &[
    "parser",
    "args",
    "arg",
    "idx",
    "info",
    "frame",
    "out",
    "fields",
    "subcmd",
    "parent",
    "tmp",
    "total_args",
    "next_positional",
    "__out",
    "__frame",
    "__parser",
    "__info",
    "__fields",
    "__idx",
    "__tmp",
    "__total_args",
    "__f",
    "__v",
    "__rt",
    "f",
    "v",
    "x",
    "s",
    "e",
    "t",
    "i",
    "name",
    "value",
    "command",
    "Some",
    "None",
    "Ok",
    "Err",
    "std",
    "core",
    "palc",
    "u8",
    "str",
    "bool",
    "usize",
    "Option",
    "Vec",
    "String",
    "Default",
    "self_",
    "Self_",
    "fmt",
    "main",
    "type",
    "match",
    "try",
    "dyn",
    "async",
    "await",
    "fn",
    "struct",
    "in",
    "move",
    "gen",
    "yield",
    "unsafe",
    "default",
    "union",
    "auto",
    "raw",
    "r#union",
    "r#default",
    "macro_rules",
    "é",
    "имя",
    "名前",
    "_x",
    "__",
    "_1",
    "a__b",
    "UPPER",
    "CamelCase",
    "parse",
    "try_parse_from",
    "is_some",
    "is_none",
    "unwrap",
    "unwrap_or_default",
    "set_default",
    "set_default_parse",
    "help",
    "version",
    "long",
    "short",
    "mod_",
    "VARIANT_INFOS",
    "__VARIANT_INFOS",
    "run",
    "new",
    "map",
    "into",
    "from",
    "assert",
    "env",
    "concat",
    "format_args",
    "__state",
    "__dependency",
    "error",
];

const TYPE_NAMES: &[&str] = &[
    "Some",
    "Ok",
    "Err",
    "None",
    "Result",
    "Box",
    "Default",
    "From",
    "Iterator",
    "Clone",
    "Fn",
    "Parser",
    "Args",
    "Subcommand",
    "ValueEnum",
    "Error",
    "Display",
    "Formatter",
    "OsStr",
    "OsString",
    "RawArgsInfo",
    "ArgAttrs",
    "RawSubcommandInfo",
    "ArgsFrame",
    "Frame",
    "RunParser",
    "Infallible",
    "PhantomData",
    "Help",
    "Help",
    "ParserInternal",
    "Flavor",
    "FlagPlace",
    "VecPlace",
    "SetValuePlace",
    "Parsable",
    "NonZero",
    "ControlFlow",
    "str",
    "usize",
    "char",
    "u8",
    "i32",
    "Type",
    "Ident",
    "std",
    "core",
    "palc",
    "fmt",
    "É",
    "snake_case",
    "r#dyn",
    "r#type",
    "T",
    "U",
    "A",
    "InferValueParser",
    "IgnoreCaseParser",
    "Path",
    "StructParserFlavor",
    "ErrorKind",
    "Val",
    "ToVal",
    "Out",
];

/// `[original, renamed]`, and the environment of the latter.
pub fn rename(mut a: Spec, s: &mut Src) -> (Vec<Spec>, Env) {
    for st in &mut a.structs {
        for f in &mut st.fields {
            if let Field::Arg(x) = f {
                pin(x);
            }
        }
    }
    let mut b = a.clone();
    for st in &mut b.structs {
        let plain = |n: &str| n.trim_start_matches("r#").to_string();
        let mut used: HashSet<String> = st.fields.iter().map(|f| plain(&f.ident())).collect();
        for f in &mut st.fields {
            if s.pct(25) {
                continue;
            }
            let n = s.pick(FIELD_NAMES).to_string();
            if !used.insert(plain(&n)) {
                continue;
            }
            match f {
                Field::Arg(x) => {
                    x.words = vec![n];
                    x.id = None;
                }
                Field::Flat { ident, .. } | Field::Sub { ident, .. } => *ident = raw_ident(&n),
            }
        }
    }
    let mut used: HashSet<String> = b.structs.iter().map(|x| x.name.clone()).collect();
    used.extend(b.enums.iter().map(|x| x.name.clone()));
    used.extend(b.venums.iter().map(|x| x.name.clone()));
    // The enum and the struct namespace meet in patterns and constructors.
    let mut pick = |s: &mut Src, old: &mut String| {
        if s.pct(60) {
            let n = s.pick(TYPE_NAMES).to_string();
            if used.insert(n.clone()) {
                *old = n;
            }
        }
    };
    for x in &mut b.structs {
        if !x.inline {
            pick(s, &mut x.name);
        }
    }
    for x in &mut b.enums {
        pick(s, &mut x.name);
    }
    for x in &mut b.venums {
        pick(s, &mut x.name);
    }
    let env = Env {
        style: s.weighted(&[30, 25, 30, 15]),
        no_prelude: s.pct(50),
        edition: s.weighted(&[40, 35, 25]),
        shadow: s.word() & s.word() | s.word() & s.word(),
        seed: s.word(),
    };
    (vec![a, b], env)
}

const UNITS: &[&str] = &[
    "Some",
    "None",
    "Ok",
    "Err",
    "Result",
    "Box",
    "String",
    "Default",
    "From",
    "Into",
    "TryFrom",
    "TryInto",
    "Iterator",
    "IntoIterator",
    "Clone",
    "Copy",
    "Send",
    "Sync",
    "Sized",
    "ToString",
    "ToOwned",
    "AsRef",
    "Drop",
    "Fn",
    "FnMut",
    "FnOnce",
    "Eq",
    "PartialEq",
    "Ord",
    "PartialOrd",
    "PhantomData",
    "Parser",
    "Args",
    "Subcommand",
    "ValueEnum",
    "Error",
    "Display",
    "Formatter",
    "OsStr",
    "OsString",
    "RawArgsInfo",
    "ArgAttrs",
    "Frame",
    "RunParser",
    "Infallible",
    "Option",
    "Vec",
    "NonZero",
    "Extend",
    "DoubleEndedIterator",
    "FromIterator",
];
const PRIMS: &[&str] =
    &["u8", "usize", "str", "char", "bool", "u16", "u32", "i32", "f64", "i64", "u64", "isize"];
const MODS: &[&str] =
    &["std", "core", "alloc", "palc", "fmt", "runtime", "error", "refl", "values", "private", "rt"];
const MACROS: &[&str] = &[
    "vec",
    "format",
    "format_args",
    "panic",
    "assert",
    "assert_eq",
    "debug_assert",
    "concat",
    "env",
    "option_env",
    "stringify",
    "write",
    "writeln",
    "print",
    "println",
    "eprintln",
    "unreachable",
    "unimplemented",
    "todo",
    "matches",
    "compile_error",
    "include_str",
    "line",
    "file",
    "module_path",
    "dbg",
    "try",
];
const FNS: &[&str] = &[
    "drop",
    "main",
    "new",
    "default",
    "from",
    "into",
    "parse",
    "unwrap",
    "is_some",
    "size_of",
    "run_parser",
];
const CONSTS: &[&str] = &[
    "x", "v", "s", "e", "i", "f", "t", "it", "idx", "info", "out", "args", "arg", "parser",
    "frame", "ident", "value", "iter", "tmp", "name", "this", "fields", "err", "ret", "val",
];
const TRAIT: &str = "pub trait zq_Ext { fn unwrap(self) where Self: ::std::marker::Sized {} fn unwrap_or_default(self) where Self: ::std::marker::Sized {} fn unwrap_or(self, _: ()) where Self: ::std::marker::Sized {} fn write_fmt(&mut self) {} fn positional_len(&self) {} fn help(&self) {} fn set_default(&self) {} fn set_default_parse(&self) {} fn run(&self) {} fn fmt(&self) {} fn parse(&self) {} fn default(&self) {} } impl<T> zq_Ext for T {}\n";

/// What the source of fields has to find under these names.
pub const IMPORTED: &[&str] = &["Option", "Vec", "bool", "Cust"];

/// Names that occur in what the derive macros write, found out by `c23.py`. `{}` is for a field.
pub fn dictionary() -> &'static [String] {
    static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| {
        let Some(p) = std::env::var_os("PALC_DICT") else { return vec![] };
        std::fs::read_to_string(p).unwrap().lines().map(String::from).collect()
    })
}

fn has_word(text: &str, w: &str) -> bool {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut from = 0;
    while let Some(p) = text[from..].find(w) {
        let (a, b) = (from + p, from + p + w.len());
        if !text[..a].ends_with(id) && !text[b..].starts_with(id) {
            return true;
        }
        from = b;
    }
    false
}

/// Items named like what code usually takes for granted.
fn shadows(env: &Env, spec: &Spec, text: &str, declared: &HashSet<String>) -> String {
    let mut o = String::new();
    let mut bits = env.seed | 1;
    let mut next = || {
        bits ^= bits << 13;
        bits ^= bits >> 7;
        bits ^= bits << 17;
        bits
    };
    let free = |n: &str| !declared.contains(n) && !declared.contains(&format!("r#{n}"));
    let on = |k: u32| env.shadow >> k & 1 == 1;
    // Types and traits share a namespace with modules.
    for n in UNITS.iter().copied() {
        let needed = matches!(n, "Option" | "Vec") && has_word(text, n);
        if needed {
            if env.no_prelude {
                let p = if n == "Option" { "option" } else { "vec" };
                let _ = writeln!(o, "use ::std::{p}::{n};");
            }
        } else if on(0) && free(n) && next() % 4 != 0 {
            // Which kind of item it is should not matter.
            match next() % 4 {
                0 => {
                    let _ = writeln!(o, "pub struct {n};");
                }
                1 => {
                    let _ = writeln!(o, "pub enum {n} {{}} pub const {n}: () = ();");
                }
                2 => {
                    let _ = writeln!(o, "pub trait {n} {{}} pub fn {n}() {{}}");
                }
                _ => {
                    let _ = writeln!(o, "pub type {n} = (); pub static {n}: () = ();");
                }
            }
        }
    }
    if on(1) {
        for n in PRIMS.iter().copied() {
            if free(n) && next() % 3 != 0 && !(n == "bool" && has_word(text, n)) {
                let _ = writeln!(o, "pub struct {n};");
            }
        }
    }
    if on(2) {
        for n in MODS.iter().copied() {
            if free(n) && next() % 3 != 0 {
                let _ = writeln!(o, "pub mod {n} {{}}");
            }
        }
    }
    if on(3) {
        for n in MACROS.iter().copied() {
            // In the 2018 edition, the standard `assert!` itself uses the `panic!` at hand.
            if next() % 4 != 0 && !(n == "panic" && env.edition == 2) {
                let _ = writeln!(
                    o,
                    "macro_rules! r#{n} {{ ($($t:tt)*) => {{ zq_no_such_macro!() }} }}"
                );
            }
        }
    }
    if on(4) {
        for n in FNS.iter().copied() {
            if free(n) && next() % 3 != 0 {
                let _ = writeln!(o, "pub fn {n}() {{}}");
            }
        }
    }
    if on(5) {
        for n in CONSTS.iter().copied() {
            if free(n) && next() % 3 != 0 {
                let _ = writeln!(
                    o,
                    "pub {} {n}: () = ();",
                    if next() % 2 == 0 { "const" } else { "static" }
                );
            }
        }
    }
    if on(6) {
        o.push_str(TRAIT);
    }
    if on(7) {
        // The user's own attributes and aliases.
        o.push_str("pub type zq_Unit = ();\n");
    }
    if on(8) {
        let fixed = [UNITS, PRIMS, MODS, FNS, CONSTS].concat();
        let fields: Vec<String> = spec
            .structs
            .iter()
            .flat_map(|s| s.fields.iter().map(|f| f.plain()))
            .filter(|f| f.len() > 1)
            .collect();
        let mut names = std::collections::BTreeSet::new();
        for w in dictionary() {
            if w.contains("{}") {
                names.extend(fields.iter().map(|f| w.replace("{}", f)));
            } else {
                names.insert(w.clone());
            }
        }
        for n in names {
            if free(&n) && !fixed.contains(&&*n) && next() % 2 == 0 {
                let kind = if next() % 2 == 0 { "const" } else { "static" };
                let _ = writeln!(o, "pub {kind} {}: () = ();", raw_ident(&n));
            }
        }
    }
    o
}

/// A rough lexer: identifiers, literals, and everything else.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Tok {
    Ident,
    Lit,
    Other,
}

fn lex(text: &str) -> Vec<(Tok, &str)> {
    let mut out = vec![];
    let mut i = 0;
    let b = text.as_bytes();
    while i < text.len() {
        let c = text[i..].chars().next().unwrap();
        let start = i;
        if text[i..].starts_with("///") {
            i += text[i..].find('\n').unwrap_or(text.len() - i);
            out.push((Tok::Other, &text[start..i]));
        } else if text[i..].starts_with("/**") {
            i += text[i..].find("*/").unwrap() + 2;
            out.push((Tok::Other, &text[start..i]));
        } else if c == '"' || (c == 'b' && b.get(i + 1) == Some(&b'"')) {
            i += if c == 'b' { 2 } else { 1 };
            while b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            out.push((Tok::Lit, &text[start..i]));
        } else if c == '\'' {
            i += 1;
            if b[i] == b'_' && b.get(i + 1) != Some(&b'\'') {
                // The only lifetime that occurs.
                i += 1;
                out.push((Tok::Other, &text[start..i]));
                continue;
            }
            if b[i] == b'\\' {
                i += 2;
            }
            while b[i] != b'\'' {
                i += 1;
            }
            i += 1;
            out.push((Tok::Lit, &text[start..i]));
        } else if c.is_alphabetic() || c == '_' {
            if text[i..].starts_with("r#") {
                i += 2;
            }
            while let Some(c) =
                text[i..].chars().next().filter(|c| c.is_alphanumeric() || *c == '_')
            {
                i += c.len_utf8();
            }
            out.push((Tok::Ident, &text[start..i]));
        } else if c.is_ascii_digit() {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            out.push((Tok::Other, &text[start..i]));
        } else {
            i += c.len_utf8();
            out.push((Tok::Other, &text[start..i]));
        }
    }
    out
}

/// Names that also occur as something else in definitions.
const FIXED: &[&str] = &[
    "std",
    "core",
    "palc",
    "engine",
    "types",
    "arg",
    "command",
    "value",
    "derive",
    "default",
    "doc",
    "self",
    "Self",
    "pub",
    "struct",
    "enum",
    "impl",
    "for",
    "fn",
    "match",
    "ref",
    "bool",
    "Option",
    "Vec",
    "String",
    "Val",
    "ToVal",
    "Struct",
    "Flat",
    "Leaf",
    "Variant",
    "Unit",
    "Default",
    "Clone",
    "Parser",
    "Args",
    "Subcommand",
    "ValueEnum",
    "long",
    "short",
    "help",
    "from",
    "From",
    "Box",
    "boxed",
    "string",
    "vec",
    "convert",
    "ffi",
    "OsString",
    "num",
    "new",
    "unwrap",
    "path",
    "PathBuf",
    "flatten",
    "subcommand",
    "required",
    "global",
    "hide",
    "last",
    "exclusive",
    "requires",
    "primitive",
    "u8",
    "i32",
    "i64",
    "f64",
    "char",
    "str",
    "const",
    "alias",
    "name",
    "zq_x",
    "zq_v",
    "zq_i",
    "option",
    "usize",
    "clone",
];

/// The contents of the module of the second definition: a function `zq_entry` around, or next to, the definition.
pub fn module(spec: &Spec, env: &Env) -> String {
    let mut em = Emit::palc();
    em.hostile = Some(env.clone());
    let text = em.module(spec);
    let top = &spec.structs[0].name;
    let mut declared: HashSet<String> = spec.structs.iter().map(|s| s.name.clone()).collect();
    declared.extend(spec.enums.iter().map(|e| e.name.clone()));
    declared.extend(spec.venums.iter().map(|e| e.name.clone()));
    // Constants next to the definition, see `Emit`.
    let (consts, exprs) = em.take_side();
    declared.extend(consts.iter().map(|c| c.0.clone()));
    let consts: String = consts.into_iter().map(|c| c.1).collect();
    let mut shadow = shadows(env, spec, &format!("{text}{consts}{exprs:?}"), &declared);
    let mut o = String::new();
    let body = if env.style >= 2 { macro_rules(&text, spec, env, &exprs) } else { text };
    shadow.push_str(&consts);
    if env.no_prelude {
        o.push_str("#![no_implicit_prelude]\n");
    }
    let sig = "pub fn zq_entry(zq_it: &mut dyn ::std::iter::Iterator<Item = ::std::ffi::OsString>) -> ::engine::types::Out";
    if env.style % 2 == 1 {
        let _ = write!(o, "{sig} {{\n{shadow}{body}\ncrate::go::<{top}>(zq_it)\n}}\n");
    } else {
        let _ = write!(o, "{shadow}{body}\n{sig} {{ crate::go::<{top}>(zq_it) }}\n");
    }
    o
}

/// Let a macro write the definition, with names, types, literals and expressions as its arguments.
fn macro_rules(
    text: &str,
    spec: &Spec,
    env: &Env,
    exprs: &BTreeMap<String, (char, String)>,
) -> String {
    let mut idents: HashSet<String> = HashSet::new();
    for s in &spec.structs {
        idents.extend(s.fields.iter().map(|f| f.ident()));
        idents.insert(s.name.clone());
    }
    for e in &spec.enums {
        idents.insert(e.name.clone());
        idents.extend(e.variants.iter().map(|v| v.ident()));
    }
    for e in &spec.venums {
        idents.insert(e.name.clone());
        idents.extend(e.variants.iter().map(|v| v.ident()));
    }
    let mut bits = env.seed | 1;
    let mut next = || {
        bits ^= bits << 13;
        bits ^= bits >> 7;
        bits ^= bits << 17;
        bits >> 11
    };
    idents.retain(|i| !FIXED.contains(&i.trim_start_matches("r#")));
    let mut all: Vec<&String> = idents.iter().collect();
    all.sort();
    let chosen: HashSet<&str> =
        all.into_iter().filter(|_| next() % 10 < 6).map(|s| s.as_str()).collect();
    let mut params: Vec<(String, &str, String)> = vec![];
    let mut body = String::new();
    for line in text.split_inclusive('\n') {
        let attr =
            line.trim_start().starts_with("#[arg") || line.trim_start().starts_with("#[value");
        let is_attr = line.trim_start().starts_with("#[");
        for (k, t) in lex(line) {
            match k {
                Tok::Ident if exprs.contains_key(t) => {
                    let (frag, real) = &exprs[t];
                    if !params.iter().any(|p| p.0 == t) {
                        params.push((
                            t.to_string(),
                            if *frag == 't' { "ty" } else { "expr" },
                            real.clone(),
                        ));
                    }
                    let _ = write!(body, "${t}");
                }
                Tok::Ident if !is_attr && chosen.contains(t) => {
                    let p = format!("zqi_{}", t.replace("r#", "raw_"));
                    if !params.iter().any(|q| q.0 == p) {
                        params.push((p.clone(), "ident", t.to_string()));
                    }
                    let _ = write!(body, "${p}");
                }
                Tok::Lit if attr && next() % 3 == 0 => {
                    let p = format!("zql_{}", params.len());
                    let frag = if next() % 3 == 0 { "tt" } else { "literal" };
                    params.push((p.clone(), frag, t.to_string()));
                    let _ = write!(body, "${p}");
                }
                _ => body.push_str(t),
            }
        }
    }
    let matcher: Vec<String> = params.iter().map(|(p, f, _)| format!("${p}:{f}")).collect();
    let given: Vec<&str> = params.iter().map(|(_, _, r)| r.as_str()).collect();
    format!(
        "macro_rules! zq_make {{ ({}) => {{\n{body}}} }}\nzq_make!({});\n",
        matcher.join("; "),
        given.join("; ")
    )
}

/// A result without the names of fields.
pub fn comparable(r: &Result<Out, String>) -> String {
    fn strip(v: &Val) -> Val {
        let all =
            |fs: &[(String, Val)]| fs.iter().map(|(_, v)| (String::new(), strip(v))).collect();
        match v {
            Val::Struct(fs) => Val::Struct(all(fs)),
            Val::Flat(fs) => Val::Flat(all(fs)),
            Val::Some(v) => Val::Some(Box::new(strip(v))),
            Val::Variant(n, v) => Val::Variant(n.clone(), Box::new(strip(v))),
            Val::List(vs) => Val::List(vs.iter().map(strip).collect()),
            v => v.clone(),
        }
    }
    match r {
        Ok(Out::Ok(v)) => format!("Ok({:?})", strip(v)),
        r => crate::checks::text(r),
    }
}

/// The definition alone, where every warning is an error.
pub fn strict(spec: &Spec) -> String {
    let mut o = String::from(STRICT);
    o.push_str(&Emit::bare().module(spec));
    o
}

/// What a careful crate turns on.
const STRICT: &str = "#![deny(warnings)]\n#![deny(unused, nonstandard_style, rust_2018_idioms, let_underscore, missing_debug_implementations, \
     single_use_lifetimes, trivial_casts, trivial_numeric_casts, unreachable_pub, unsafe_code, unused_lifetimes, \
     unused_results, unused_macro_rules, unit_bindings, redundant_lifetimes, deprecated, variant_size_differences)]\n\
     #![allow(unused_attributes, non_camel_case_types, non_snake_case, \
     missing_debug_implementations, variant_size_differences)]\n";
