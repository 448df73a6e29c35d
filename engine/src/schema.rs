//! Random definitions. Everything is decoded from an entropy source, so proptest shrinks it too.
use crate::spec::*;
use crate::src::Src;
use std::collections::HashSet;

/// What kind of definitions to make; all numbers are percentages unless said otherwise.
#[derive(Clone, Debug)]
pub struct Knobs {
    /// Argument count of a level (min, max).
    pub args: (usize, usize),
    pub depth: usize,
    pub sub: u32,
    pub sub_optional: u32,
    pub variants: (usize, usize),
    pub flat: u32,
    pub flat_depth: usize,
    pub flat_args: (usize, usize),
    /// Positional (as opposed to named).
    pub positional: u32,
    pub trailing: u32,
    pub last: u32,
    /// Weights of Bool, Value, Opt, OptOpt, Vec, OptVec for named arguments.
    pub kinds: [u32; 6],
    /// Weights of types, in the order of `TYS` below.
    pub tys: [u32; 15],
    pub global: u32,
    pub hyphen: u32,
    pub req_eq: u32,
    pub delim: u32,
    pub dflt: u32,
    pub required: u32,
    pub requires: u32,
    pub conflicts: u32,
    pub exclusive: u32,
    pub ignore_case: u32,
    pub alias: u32,
    pub short: u32,
    pub unicode: u32,
    pub raw: u32,
    pub hide: u32,
    pub doc: u32,
    pub value_name: u32,
    /// Chance that an inner level reuses a name of an outer one.
    pub reuse: u32,
    /// Chance that a flattened argument reuses a name of its parent.
    pub flat_collide: u32,
    /// Chance of declaring `h` / `help`.
    pub shadow_help: u32,
    pub about: u32,
    pub venum: (usize, usize),
    /// Only definitions that clap understands in the same way.
    pub clap: bool,
    /// Default values are plain expressions.
    pub plain: bool,
    /// Names from a huge pool of lookalikes.
    pub dense_names: bool,
    /// Identifiers in unusual case.
    pub odd_ids: u32,
    /// Fill up with flags to the maximum that the library allows.
    pub fill: bool,
    /// Add unit variants to subcommand enums, up to this count.
    pub fill_variants: usize,
}

/// As many fields as a struct may have.
pub const MAX_FIELDS: usize = 254;

pub const TYS: [Ty; 14] = [
    Ty::Str,
    Ty::OsStr,
    Ty::Path,
    Ty::U8,
    Ty::I32,
    Ty::I64,
    Ty::F64,
    Ty::Char,
    Ty::Bool,
    Ty::Nz,
    Ty::Even,
    Ty::Tagged,
    Ty::Dual,
    Ty::Infal,
];

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            args: (1, 6),
            depth: 2,
            sub: 45,
            sub_optional: 50,
            variants: (1, 4),
            flat: 25,
            flat_depth: 2,
            flat_args: (1, 3),
            positional: 35,
            trailing: 12,
            last: 15,
            kinds: [20, 20, 25, 10, 15, 10],
            tys: [8, 4, 3, 4, 4, 2, 2, 2, 2, 2, 3, 3, 3, 2, 8],
            global: 20,
            hyphen: 30,
            req_eq: 15,
            delim: 40,
            dflt: 20,
            required: 15,
            requires: 12,
            conflicts: 12,
            exclusive: 6,
            ignore_case: 40,
            alias: 25,
            short: 60,
            unicode: 6,
            raw: 6,
            hide: 8,
            doc: 40,
            value_name: 15,
            reuse: 20,
            flat_collide: 0,
            shadow_help: 0,
            about: 60,
            venum: (1, 4),
            clap: false,
            plain: false,
            dense_names: false,
            odd_ids: 12,
            fill: false,
            fill_variants: 0,
        }
    }
}

const WORDS: [&str; 40] = [
    "alpha", "beta", "al", "alp", "color", "col", "config", "file", "foo", "bar", "baz", "verbose",
    "ver", "out", "output", "dry", "run", "x", "key", "keys", "name", "path", "level", "mode",
    "no", "v2", "list", "all", "size", "force", "quiet", "self2", "data", "host", "port", "user",
    "tag", "time", "kind", "jobs",
];
const UNI: [&str; 6] = ["größe", "été", "имя", "名前", "naïve", "ñu"];
const SHORTS: &str = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const ODD_SHORTS: &str = "?!+:/.,@#%_~é名ß🦀'\"\\";
const DOC: [&str; 12] = [
    "Do something.",
    "The {curly} braces {} and {0} stay.",
    "Percent %s, quote \" and \\ backslash.",
    "Unicode – ünïcödé 名前.",
    "--not-an-option here",
    "Usage: nothing",
    "Options:",
    "see <https://example.org>",
    "A tab\tinside",
    "[default: 42]",
    "'single' `ticks`",
    "x",
];

pub struct Gen<'s, 'w> {
    pub s: &'s mut Src<'w>,
    pub k: Knobs,
    pub spec: Spec,
    uid: usize,
}

fn is_ident_clash(x: &str) -> bool {
    // Cannot be raw identifiers, or are used by the generated code itself.
    matches!(x, "self" | "super" | "crate" | "Self" | "_" | "to_val" | "run" | "T")
}

impl<'s, 'w> Gen<'s, 'w> {
    pub fn new(s: &'s mut Src<'w>, k: Knobs) -> Self {
        Gen { s, k, spec: Spec::default(), uid: 0 }
    }

    pub fn generate(mut self) -> Spec {
        let nv = if self.k.tys[14] > 0 { self.s.range(1, 3) } else { 0 };
        for _ in 0..nv {
            let v = self.venum();
            self.spec.venums.push(v);
        }
        self.spec.structs.push(Struct::default());
        let top = self.level("Top".into(), 0, &mut vec![]);
        self.spec.structs[0] = top;
        self.spec
    }

    fn next_name(&mut self, p: &str) -> String {
        self.uid += 1;
        format!("{p}{}", self.uid)
    }

    fn word(&mut self) -> String {
        if self.s.pct(self.k.unicode) {
            return self.s.pick(&UNI).to_string();
        }
        if self.k.dense_names {
            // Lookalikes: short strings over a tiny alphabet.
            let n = self.s.range(1, 5);
            let mut w: String = (0..n).map(|_| *self.s.pick(&['a', 'b', 'c'])).collect();
            if self.s.pct(20) {
                w.push(*self.s.pick(&['0', '1', '9']));
            }
            return w;
        }
        if self.s.pct(8) {
            let n = self.s.range(1, 14);
            return (0..n).map(|_| (b'a' + self.s.below(26) as u8) as char).collect();
        }
        self.s.pick(&WORDS).to_string()
    }

    /// Any text without control characters.
    fn text(&mut self, max: usize) -> String {
        let n = self.s.range(1, max);
        (0..n)
            .map(|_| match self.s.weighted(&[60, 20, 12, 8]) {
                0 => (b'a' + self.s.below(26) as u8) as char,
                1 => (b' ' + self.s.below(95) as u8) as char,
                2 => *self.s.pick(&['é', 'ß', '–', '名', '🦀', 'Ω', 'ñ']),
                // Without controls of text direction, which the compiler refuses in source.
                _ => match char::from_u32(0xa1 + self.s.below(0x5000) as u32) {
                    Some(c)
                        if !c.is_whitespace()
                            && c != '\u{61c}'
                            && !('\u{2000}'..'\u{2100}').contains(&c) =>
                    {
                        c
                    }
                    _ => 'ÿ',
                },
            })
            .collect()
    }

    fn words(&mut self) -> Vec<String> {
        if self.s.pct(self.k.raw) {
            return vec![self.s.pick(KEYWORDS).to_string()];
        }
        let n = [1, 2, 3, 6][self.s.weighted(&[49, 34, 13, 4])];
        (0..n).map(|_| self.word()).collect()
    }

    /// An identifier in unusual case.
    fn odd_id(&mut self) -> Option<String> {
        const PIECES: [&str; 24] = [
            "foo", "Foo", "foo", "Bar", "A", "B", "x", "y", "1", "2", "64", "_", "HTTP", "Server",
            "http", "V2", "Ray", "IO", "i", "Z", "É", "é", "__", "_",
        ];
        let n = match self.s.below(8) {
            0 => 8,
            1 => 5,
            k => k / 2 + 1,
        };
        let id: String = (0..n).map(|_| *self.s.pick(&PIECES)).collect();
        let words = split_words(&id);
        let ok = !id.starts_with(|c: char| c.is_ascii_digit())
            && !words.is_empty()
            && !words[0].starts_with(|c: char| c.is_ascii_digit())
            && words[0] != "self";
        ok.then_some(id)
    }

    /// The words of a variant, and its identifier, if that is unusual.
    fn variant_id(&mut self) -> (Vec<String>, Option<String>) {
        if self.s.pct(self.k.odd_ids)
            && let Some(id) = self.odd_id()
        {
            return (split_words(&id), Some(id));
        }
        (self.variant_words(), None)
    }

    /// Words whose PascalCase splits back into them.
    fn variant_words(&mut self) -> Vec<String> {
        loop {
            let mut w = self.words();
            if w[0].chars().next().is_some_and(|c| c.to_uppercase().next() == Some(c)) {
                w[0] = "item".into();
            }
            for x in &mut w {
                if x.chars().count() < 2 || !x.is_ascii() {
                    x.push_str("ab");
                }
                if x.chars().any(|c| c.is_ascii_digit()) {
                    *x = x.replace(|c: char| c.is_ascii_digit(), "");
                    x.push_str("zz");
                }
                // Scripts without case do not split.
                if !x.chars().next().unwrap().is_lowercase() {
                    x.insert(0, 'u');
                }
            }
            if pascal(&w) != "Self" {
                return w;
            }
        }
    }

    pub fn venum(&mut self) -> VEnum {
        let name = self.next_name("Ve");
        let n = self.s.range(self.k.venum.0, self.k.venum.1);
        let rename = if self.k.clap || self.s.pct(50) { None } else { Some(self.s.below(8)) };
        let param = !self.k.clap && self.s.pct(12);
        let decoys = if self.k.clap || self.s.pct(60) { 0 } else { self.s.below(8) as u8 };
        let mut e = VEnum { name, rename, param, decoys, variants: vec![] };
        let mut idents = HashSet::new();
        let mut names = HashSet::new();
        let mut tries = 0;
        while e.variants.len() < n && tries < n * 8 {
            tries += 1;
            let (words, id) = self.variant_id();
            let nm = if self.s.pct(20) {
                Some(match self.s.below(10) {
                    8 => self.text(20),
                    0 => "".to_string(),
                    1 => "the value".to_string(),
                    2 => "a,b".to_string(),
                    3 => "-dash".to_string(),
                    4 => "UPPER".to_string(),
                    5 => "größe".to_string(),
                    6 => "0".to_string(),
                    7 => "k=v".to_string(),
                    _ => self.word(),
                })
            } else {
                None
            };
            if self.k.clap && nm.as_deref().is_some_and(|n| n.is_empty() || n.contains(',')) {
                continue;
            }
            let v = VVariant { words, id, name: nm };
            if !idents.insert(v.plain_ident()) {
                continue;
            }
            e.variants.push(v);
            let v = e.value_name(e.variants.len() - 1);
            if !names.insert(v) {
                e.variants.pop();
            }
        }
        if e.variants.is_empty() {
            e.variants.push(VVariant { words: vec!["only".into()], id: None, name: None });
        }
        e
    }

    fn doc(&mut self) -> Vec<String> {
        if !self.s.pct(self.k.doc) {
            return vec![];
        }
        let mut d = vec![];
        let n = 1 + self.s.weighted(&[40, 25, 20, 10, 5]);
        for i in 0..n {
            if i > 0 && self.s.pct(40) {
                d.push(String::new());
            }
            let line = match self.s.weighted(&[80, 15, 5]) {
                0 => self.s.pick(&DOC).to_string(),
                1 => self.text(40).trim().to_string(),
                _ => self.text(300).trim().to_string(),
            };
            d.push(if line.is_empty() { "x".into() } else { line });
        }
        d
    }

    fn ty(&mut self) -> Ty {
        let i = self.s.weighted(&self.k.tys.clone());
        if i == 14 && !self.spec.venums.is_empty() {
            Ty::Venum(self.s.below(self.spec.venums.len()))
        } else {
            match TYS[i.min(13)] {
                Ty::OsStr if !self.k.clap && self.s.pct(25) => Ty::BoxOs,
                Ty::Even if !self.k.clap && self.s.pct(35) => Ty::Cust,
                t => t,
            }
        }
    }

    /// A body: fields of a struct, without its type name. `outer` are the names of enclosing levels.
    fn level(&mut self, name: String, depth: usize, outer: &mut Vec<String>) -> Struct {
        let mut st = Struct { name, ..Default::default() };
        let mut idents: HashSet<String> = HashSet::new();
        let mut longs: HashSet<String> = HashSet::new();
        let mut shorts: HashSet<char> = HashSet::new();
        let n = self.s.range(self.k.args.0, self.k.args.1);
        let want_sub = depth < self.k.depth && self.s.pct(self.k.sub);
        let mut flats = vec![];
        if self.s.pct(self.k.flat) {
            let n = 1 + self.s.weighted(&[50, 35, 10, 5]);
            for _ in 0..n {
                flats.push(self.flat(1, &mut longs, &mut shorts, outer));
            }
        }
        let flat_names: Vec<String> =
            longs.iter().cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let mut own_longs = HashSet::new();
        let mut own_shorts = HashSet::new();
        let collide = self.k.flat_collide;
        let mut args: Vec<Arg> = vec![];
        for _ in 0..n {
            let positional = self.s.pct(self.k.positional);
            let a = if positional {
                self.positional(&mut idents)
            } else if collide > 0 && !flat_names.is_empty() && self.s.pct(collide) {
                // Deliberately the name of a flattened one.
                let nm = self.s.pick(&flat_names).clone();
                let mut l2 = own_longs.clone();
                let mut s2: HashSet<char> = own_shorts.union(&shorts).copied().collect();
                let mut a = self.named(&mut idents, &mut l2, &mut s2, outer);
                if let Some(a) = &mut a {
                    if own_longs.insert(nm.clone()) {
                        a.long = Some(Some(nm));
                        a.aliases.retain(|x| !longs.contains(x) && own_longs.insert(x.clone()));
                        own_shorts.extend(a.shorts());
                    } else {
                        continue;
                    }
                }
                a
            } else {
                let mut l2: HashSet<String> = own_longs.union(&longs).cloned().collect();
                let mut s2: HashSet<char> = own_shorts.union(&shorts).copied().collect();
                let a = self.named(&mut idents, &mut l2, &mut s2, outer);
                if let Some(a) = &a {
                    own_longs.extend(a.longs());
                    own_shorts.extend(a.shorts());
                }
                a
            };
            args.extend(a);
        }
        Self::fix_positionals(&mut args, self.k.clap, want_sub);
        let want_optional = self.s.pct(self.k.sub_optional);
        if want_sub && !want_optional {
            // Otherwise nothing could ever satisfy it.
            for a in &mut args {
                if a.last || a.trailing {
                    a.required = false;
                }
            }
        }
        for a in args {
            st.fields.push(Field::Arg(a));
        }
        // Flattened structs and the subcommand go anywhere.
        for f in flats {
            let ident = self.fresh_ident(&mut idents, "flat");
            let at = self.s.below(st.fields.len() + 1);
            st.fields.insert(at, Field::Flat { ident, st: f });
        }
        if want_sub {
            let mut names: Vec<String> = own_longs.iter().chain(&longs).cloned().collect();
            names.sort();
            let keep = outer.len();
            outer.extend(names);
            let optional = want_optional;
            let en = self.sub_enum(depth + 1, outer);
            outer.truncate(keep);
            let ident = self.fresh_ident(&mut idents, "cmd");
            let at = self.s.below(st.fields.len() + 1);
            st.fields.insert(at, Field::Sub { ident, en, optional });
        }
        if self.k.fill {
            for i in st.fields.len()..MAX_FIELDS {
                let mut a = Arg::new(&["filler", &format!("x{i}")], Kind::Bool, Ty::Bool);
                a.named = true;
                a.long = Some(None);
                let at = self.s.below(st.fields.len() + 1);
                st.fields.insert(at, Field::Arg(a));
            }
        }
        self.constraints(&mut st);
        self.about(&mut st);
        st
    }

    fn about(&mut self, st: &mut Struct) {
        if self.s.pct(self.k.about) {
            match self.s.weighted(&[70, 30]) {
                0 => {
                    let keep = self.k.doc;
                    self.k.doc = 100;
                    st.doc = self.doc();
                    self.k.doc = keep;
                }
                _ => {
                    st.long_about = Some(match self.s.weighted(&[60, 15, 25]) {
                        0 => format!("About {} {{x}}.\nSecond line.", self.s.pick(&WORDS)),
                        // The description of the package.
                        1 => "generated".to_string(),
                        _ => self.lines(),
                    })
                }
            }
            if self.s.pct(30) {
                st.after = Some(match self.s.weighted(&[60, 40]) {
                    0 => format!("After help of {}.", self.s.pick(&WORDS)),
                    _ => self.lines(),
                });
            }
            st.form = self.s.below(4) as u8;
        }
    }

    /// One or more lines of text.
    fn lines(&mut self) -> String {
        let n = 1 + self.s.weighted(&[50, 30, 20]);
        let max = if self.s.pct(20) { 300 } else { 40 };
        let lines: Vec<String> = (0..n).map(|_| format!("w{}", self.text(max).trim())).collect();
        lines.join(if self.s.pct(70) { "\n" } else { "\n\n" })
    }

    fn fresh_ident(&mut self, idents: &mut HashSet<String>, base: &str) -> String {
        let mut i = 0;
        loop {
            let s = if i == 0 { base.to_string() } else { format!("{base}{i}") };
            if idents.insert(s.clone()) {
                return s;
            }
            i += 1;
        }
    }

    /// A struct to be flattened: named arguments only.
    fn flat(
        &mut self,
        depth: usize,
        longs: &mut HashSet<String>,
        shorts: &mut HashSet<char>,
        outer: &[String],
    ) -> usize {
        let mut idents = HashSet::new();
        let mut st = Struct { name: self.next_name("Flat"), ..Default::default() };
        let n = self.s.range(self.k.flat_args.0, self.k.flat_args.1);
        for _ in 0..n {
            if let Some(a) = self.named(&mut idents, longs, shorts, outer) {
                st.fields.push(Field::Arg(a));
            }
        }
        if depth < self.k.flat_depth && self.s.pct(35) {
            let f = self.flat(depth + 1, longs, shorts, outer);
            let ident = self.fresh_ident(&mut idents, "inner");
            let at = self.s.below(st.fields.len() + 1);
            st.fields.insert(at, Field::Flat { ident, st: f });
        }
        self.constraints(&mut st);
        self.about(&mut st);
        self.spec.structs.push(st);
        self.spec.structs.len() - 1
    }

    fn sub_enum(&mut self, depth: usize, outer: &mut Vec<String>) -> usize {
        let name = self.next_name("Cmd");
        let slot = self.spec.enums.len();
        self.spec.enums.push(SubEnum { name, variants: vec![] });
        let n = self.s.range(self.k.variants.0, self.k.variants.1);
        let mut seen = HashSet::new();
        let mut variants = vec![];
        for _ in 0..n {
            let (words, id) = self.variant_id();
            let ident = id.clone().unwrap_or_else(|| pascal(&words));
            if seen.contains(&words.join("-")) || !seen.insert(format!("!{ident}")) {
                continue;
            }
            seen.insert(words.join("-"));
            if self.k.clap && words.join("-") == "help" {
                continue;
            }
            let shape = self.s.weighted(&[20, 40, 40]);
            let (body, doc, after) = match shape {
                0 => {
                    let d = self.doc();
                    let after = if self.s.pct(15) { Some("After unit.".to_string()) } else { None };
                    (Body::Unit, d, after)
                }
                _ => {
                    let nm = self.next_name("Sub");
                    let mut st = self.level(nm, depth, outer);
                    st.inline = shape == 2;
                    self.spec.structs.push(st);
                    let i = self.spec.structs.len() - 1;
                    (if shape == 2 { Body::Inline(i) } else { Body::Newtype(i) }, vec![], None)
                }
            };
            variants.push(Variant { words, id, body, doc, after });
        }
        for i in variants.len()..self.k.fill_variants {
            let words = vec!["filler".to_string(), format!("x{i}")];
            let v = Variant { words, id: None, body: Body::Unit, doc: vec![], after: None };
            let at = self.s.below(variants.len() + 1);
            variants.insert(at, v);
        }
        self.spec.enums[slot].variants = variants;
        slot
    }

    fn ident_words(
        &mut self,
        idents: &mut HashSet<String>,
    ) -> Option<(Vec<String>, Option<String>)> {
        if self.s.pct(self.k.odd_ids)
            && let Some(id) = self.odd_id()
            && !is_ident_clash(&id)
            && idents.insert(id.clone())
        {
            return Some((split_words(&id), Some(id)));
        }
        for _ in 0..20 {
            let w = self.words();
            let id = w.join("_");
            if !is_ident_clash(&id) && idents.insert(id) {
                return Some((w, None));
            }
        }
        None
    }

    fn named(
        &mut self,
        idents: &mut HashSet<String>,
        longs: &mut HashSet<String>,
        shorts: &mut HashSet<char>,
        outer: &[String],
    ) -> Option<Arg> {
        let (words, id) = self.ident_words(idents)?;
        let kinds = [Kind::Bool, Kind::Value, Kind::Opt, Kind::OptOpt, Kind::Vec, Kind::OptVec];
        let kind = kinds[self.s.weighted(&self.k.kinds.clone())];
        let ty = if kind == Kind::Bool {
            Ty::Bool
        } else {
            match self.ty() {
                // `bool` on its own is a flag.
                Ty::Bool if kind == Kind::Value => Ty::Str,
                t => t,
            }
        };
        let mut a = Arg::new(&[], kind, ty);
        a.words = words;
        a.id = id;
        a.named = true;
        a.style = self.s.below(8) as u8;
        a.order = if self.s.pct(50) { self.s.below(1 << 30) as u32 } else { 0 };
        // Names.
        let want_short = self.s.pct(self.k.short);
        let want_long = !want_short || self.s.pct(60);
        if want_long {
            let own = a.words.join("-");
            if !outer.is_empty() && self.s.pct(self.k.reuse) {
                let nm = self.s.pick(outer).clone();
                if longs.insert(nm.clone()) {
                    a.long = Some(Some(nm));
                }
            }
            if a.long.is_none() {
                let explicit = self.s.pct(25);
                if !explicit && longs.insert(own) {
                    a.long = Some(None);
                } else if let Some(nm) = self.long(longs) {
                    a.long = Some(Some(nm));
                }
            }
        }
        if want_short {
            let first = a.words[0].chars().next().unwrap();
            if self.s.pct(40) && first != 'h' && shorts.insert(first) {
                a.short = Some(None);
            } else if let Some(c) = self.short(shorts) {
                a.short = Some(Some(c));
            }
        }
        if a.long.is_none() && a.short.is_none() {
            let nm = self.long(longs)?;
            a.long = Some(Some(nm));
        }
        while self.s.pct(self.k.alias) && a.aliases.len() < 6 {
            if let Some(nm) = self.long(longs) {
                a.aliases.push(nm);
            }
        }
        while self.s.pct(self.k.alias) && a.short_aliases.len() < 6 {
            if let Some(c) = self.short(shorts) {
                a.short_aliases.push(c);
            }
        }
        if self.s.pct(self.k.shadow_help) {
            if self.s.pct(50) && longs.insert("help".into()) {
                a.aliases.push("help".into());
            } else if shorts.insert('h') {
                a.short_aliases.push('h');
            }
        }
        if self.s.pct(self.k.value_name) {
            a.value_name =
                Some(self.s.pick(&["VALUE", "x y", "wéird", "", "{}", "A=B", "'q'"]).to_string());
        }
        a.global = self.s.pct(self.k.global);
        if kind == Kind::OptOpt || (kind != Kind::Bool && self.s.pct(self.k.req_eq)) {
            a.req_eq = true;
        }
        if kind.takes_value() && !a.req_eq && self.s.pct(self.k.hyphen) {
            a.hyphen = if self.s.pct(50) { Hyphen::Num } else { Hyphen::Any };
        }
        self.value_attrs(&mut a);
        if let Ty::Venum(v) = ty
            && self.spec.venums[v].no_upper()
            && self.s.pct(self.k.ignore_case)
        {
            a.ignore_case = true;
        }
        if self.k.clap {
            if kind == Kind::Bool {
                a.req_eq = false;
                a.dflt = None;
                a.required = false;
            }
            if a.global && a.is_required() {
                a.global = false;
            }
        }
        Some(a)
    }

    fn value_attrs(&mut self, a: &mut Arg) {
        if a.kind.multi() && self.s.pct(self.k.delim) {
            a.delim = Some(*self.s.pick(&[',', ':', ' ', 'x', '=', '–', '-']));
        }
        if self.k.clap && a.delim == Some('–') {
            a.delim = Some(',');
        }
        if self.s.pct(self.k.dflt) {
            a.dflt = self.dflt(a);
        }
        if a.dflt.is_none() && a.kind != Kind::Value && self.s.pct(self.k.required) {
            a.required = true;
        } else if a.dflt.is_none() && a.kind == Kind::Value && self.s.pct(10) {
            // Redundant but allowed.
            a.required = true;
        }
        a.hide = self.s.pct(self.k.hide);
        a.doc = self.doc();
    }

    fn dflt(&mut self, a: &Arg) -> Option<Dflt> {
        let how = self.s.weighted(&[50, 25, 25]);
        let raw_pool: &[&str] = match a.ty {
            Ty::Str => &["", "dflt", "a b", "{}", "-x", "q\"uote"],
            Ty::OsStr | Ty::Path | Ty::BoxOs => &["", "/tmp/x", "é"],
            Ty::U8 => &["7", "255"],
            Ty::I32 | Ty::I64 => &["42", "-5", "0"],
            Ty::F64 => &["1.5", "3.0"],
            Ty::Char => &["x", "é"],
            Ty::Bool => &["true", "false"],
            Ty::Nz => &["9"],
            Ty::Even => &["8"],
            Ty::Cust => &["", "cust", "é b"],
            Ty::Tagged => &["tag", "t"],
            Ty::Dual => &["dual"],
            Ty::Infal => &["", "inf"],
            Ty::Venum(_) => &[],
        };
        let raw = match a.ty {
            Ty::Venum(v) => {
                let n = self.spec.venums[v].names();
                self.s.pick(&n).clone()
            }
            _ => self.s.pick(raw_pool).to_string(),
        };
        if a.kind.multi() {
            // One occurrence, split at the delimiter: every piece must be valid.
            let raw = match (a.delim, a.ty) {
                (Some(d), Ty::Venum(_)) if raw.contains(d) => return None,
                (Some(d), Ty::Str | Ty::OsStr | Ty::Path | Ty::BoxOs | Ty::Cust | Ty::Infal) => {
                    format!("{raw}{d}b")
                }
                (Some(d), _) if raw.contains(d) => return None,
                (Some(d), Ty::U8) if !d.is_ascii_digit() && d != 'x' => format!("{raw}{d}{raw}"),
                _ => raw,
            };
            return Some(Dflt::Str(raw));
        }
        if a.kind == Kind::OptOpt || how == 0 || !a.named || (self.k.clap && a.kind == Kind::Opt) {
            return Some(Dflt::Str(raw));
        }
        let inherit_ok = matches!(
            a.ty,
            Ty::Str
                | Ty::U8
                | Ty::I32
                | Ty::I64
                | Ty::F64
                | Ty::Bool
                | Ty::Even
                | Ty::Infal
                | Ty::Cust
                | Ty::Venum(_)
        );
        if how == 1 && inherit_ok {
            return Some(Dflt::Inherit);
        }
        let expr = match a.ty {
            Ty::Str if self.s.pct(50) => format!("{raw:?}.into()"),
            Ty::Str => format!("::std::string::String::from({raw:?})"),
            Ty::U8 | Ty::I32 | Ty::I64 | Ty::F64 | Ty::Bool => raw.clone(),
            Ty::Char => format!("{:?}", raw.chars().next().unwrap()),
            Ty::Nz => "::std::num::NonZeroU32::new(9).unwrap()".into(),
            Ty::Even => "::engine::types::Even(8)".into(),
            Ty::Tagged => format!("::engine::types::Tagged({raw:?}.into())"),
            Ty::Dual => format!("::engine::types::Dual({raw:?}.into(), true)"),
            Ty::Cust => format!("Cust({raw:?}.into())"),
            Ty::Infal => format!("::engine::types::Infal({raw:?}.into())"),
            Ty::Venum(v) => {
                let e = &self.spec.venums[v];
                let i = e.names().iter().position(|n| *n == raw).unwrap();
                // The path of the type depends on where it is placed; see `emit`.
                format!("$VE{v}::{}", e.variants[i].ident())
            }
            Ty::OsStr | Ty::Path | Ty::BoxOs => return Some(Dflt::Str(raw)),
        };
        let expr = if self.k.clap || self.k.plain { expr } else { self.wrap(a.ty, expr) };
        Some(Dflt::Expr { expr, raw })
    }

    /// The same value by another expression.
    fn wrap(&mut self, ty: Ty, e: String) -> String {
        let copy = matches!(ty, Ty::U8 | Ty::I32 | Ty::I64 | Ty::F64 | Ty::Char | Ty::Bool);
        // With a type that is not to be inferred.
        let how = if e.contains(".into()") { 0 } else { self.s.below(24) };
        match how {
            1 => format!("({e})"),
            2 => format!("{{ {e} }}"),
            3 => format!("({e}, 1, 'x').0"),
            4 => format!("::core::convert::identity::<_>({e})"),
            5 => format!("::core::result::Result::<_, ::core::primitive::char>::Ok({e}).unwrap()"),
            6 => format!("::core::option::Option::<_>::None.unwrap_or({e})"),
            7 => format!("::std::hint::black_box({e},)"),
            8 if copy => format!("(::core::option::Option::Some({e}),).0.unwrap()"),
            9 if copy => format!("*&{e}"),
            10 if copy => format!("::std::vec![{e}, {e}][::core::primitive::usize::MIN]"),
            11 if ty == Ty::U8 => format!("{e} + 0 * 7 / 1"),
            12 if ty == Ty::U8 => format!("(({e}) as ::core::primitive::u8)"),
            13 if ty == Ty::I32 => format!("-(-{e})"),
            14 if ty == Ty::Bool => format!("!!({e} || 1 > 2 && 3 << 2 >= 1)"),
            15 if ty == Ty::Char => format!("{{ ({e}) }}"),
            16 if ty == Ty::Even => "::engine::types::Even { 0: 4 + 4 }".into(),
            17 if ty == Ty::Bool => format!("matches!({e}, true)"),
            _ => e,
        }
    }

    fn long(&mut self, longs: &mut HashSet<String>) -> Option<String> {
        for _ in 0..20 {
            let s = match self.s.weighted(&[68, 9, 9, 9, 5]) {
                0 => {
                    let n = self.s.range(1, 2);
                    (0..n).map(|_| self.word()).collect::<Vec<_>>().join("-")
                }
                1 => self.word().to_uppercase(),
                2 => format!("{}_{}", self.word(), self.word()),
                4 if !self.k.clap => {
                    self.text(30).replace('=', "+").trim_start_matches('-').to_string()
                }
                _ => self
                    .s
                    .pick(&[
                        "a",
                        "é",
                        "x.y",
                        "with space",
                        "0",
                        "a--b",
                        "q?",
                        "名",
                        "x-",
                        "A",
                        "\"",
                        "a\\b",
                    ])
                    .to_string(),
            };
            if s != "help"
                && !s.is_empty()
                && !(self.k.clap && (s == "version" || s.contains(' ')))
                && longs.insert(s.clone())
            {
                return Some(s);
            }
        }
        None
    }

    fn short(&mut self, shorts: &mut HashSet<char>) -> Option<char> {
        for _ in 0..30 {
            let pool: Vec<char> = if self.s.pct(self.k.unicode * 3) {
                let c = self.text(1).chars().next().unwrap();
                let odd = !self.k.clap && !matches!(c, '-' | '=' | ' ') && self.s.pct(40);
                if odd { vec![c] } else { ODD_SHORTS.chars().collect() }
            } else {
                SHORTS.chars().collect()
            };
            let c = *self.s.pick(&pool);
            if c != 'h' && !(self.k.clap && (c == 'V' || c.is_ascii_digit())) && shorts.insert(c) {
                return Some(c);
            }
        }
        None
    }

    fn positional(&mut self, idents: &mut HashSet<String>) -> Option<Arg> {
        let (words, id) = self.ident_words(idents)?;
        let kinds = [Kind::Value, Kind::Opt, Kind::Vec, Kind::OptVec];
        let kind = kinds[self.s.weighted(&[35, 30, 20, 15])];
        let ty = match self.ty() {
            Ty::Bool if kind == Kind::Value => Ty::Str,
            t => t,
        };
        let mut a = Arg::new(&[], kind, ty);
        a.words = words;
        a.id = id;
        a.style = self.s.below(8) as u8;
        a.order = if self.s.pct(50) { self.s.below(1 << 30) as u32 } else { 0 };
        if self.s.pct(self.k.value_name) {
            a.value_name = Some(self.s.pick(&["FILE", "a b", "ünit", "{0}"]).to_string());
        }
        self.value_attrs(&mut a);
        if kind.multi() {
            let r = self.s.below(100) as u32;
            a.trailing = r >= 100 - self.k.trailing;
            a.last = r < self.k.last && !a.trailing && r > 0;
        }
        Some(a)
    }

    /// Only one variable-length positional, at the end, and only one `last`.
    fn fix_positionals(args: &mut Vec<Arg>, clap: bool, sub: bool) {
        let mut var = false;
        let mut last = false;
        args.retain(|a| {
            if a.named {
                return true;
            }
            if a.last {
                return !std::mem::replace(&mut last, true);
            }
            if a.kind.multi() {
                return !std::mem::replace(&mut var, true);
            }
            !var
        });
        if clap {
            // clap fills positionals in the order of declaration, and wants the required ones first.
            let (named, mut pos): (Vec<Arg>, Vec<Arg>) =
                std::mem::take(args).into_iter().partition(|a| a.named);
            pos.sort_by_key(|a| (a.last, a.kind.multi()));
            if pos.iter().any(|a| a.trailing) {
                pos.retain(|a| !a.last);
            }
            args.extend(pos);
            args.extend(named);
            let mut optional = false;
            args.retain(|a| {
                if a.named {
                    return true;
                }
                let keep = !(a.is_required() && optional);
                optional |= !a.is_required();
                keep
            });
            let _ = sub;
        }
    }

    fn constraints(&mut self, st: &mut Struct) {
        let idx: Vec<usize> = st.args().map(|(i, _)| i).collect();
        if idx.len() < 2 {
            return;
        }
        let has_flat = st.flats().next().is_some();
        // `requires` first, so that conflicts can stay out of its closures.
        for &i in &idx {
            if self.s.pct(self.k.requires) {
                let n = 1 + self.s.weighted(&[50, 30, 12, 8]);
                for _ in 0..n {
                    let r = *self.s.pick(&idx);
                    let a = st.fields[i].arg().unwrap();
                    if r != i && !a.requires.contains(&r) {
                        let Field::Arg(a) = &mut st.fields[i] else { unreachable!() };
                        a.requires.push(r);
                    }
                }
            }
        }
        let closure = |st: &Struct, i: usize| -> HashSet<usize> {
            let mut seen = HashSet::from([i]);
            let mut todo = vec![i];
            let pos = st.positionals();
            while let Some(x) = todo.pop() {
                let a = st.fields[x].arg().unwrap();
                let mut next = a.requires.clone();
                // A positional can only be given after the earlier ones.
                if !a.named && !a.last {
                    let k = pos.iter().position(|&p| p == x).unwrap();
                    next.extend(&pos[..k]);
                }
                for y in next {
                    if seen.insert(y) {
                        todo.push(y);
                    }
                }
            }
            seen
        };
        let mut always: HashSet<usize> = HashSet::new();
        for &i in &idx {
            if st.fields[i].arg().unwrap().is_required() {
                always.extend(closure(st, i));
            }
        }
        for &i in &idx {
            if !self.s.pct(self.k.conflicts) {
                continue;
            }
            let n = 1 + self.s.weighted(&[65, 20, 10, 5]);
            for _ in 0..n {
                let c = *self.s.pick(&idx);
                let both = always.contains(&c) && always.contains(&i);
                // One that is always there rules the other out.
                let one = always.contains(&c) || always.contains(&i);
                if c == i || both || one && self.s.pct(40) {
                    continue;
                }
                let (ci, cc) = (closure(st, i), closure(st, c));
                if ci.contains(&c) || cc.contains(&i) {
                    continue;
                }
                let Field::Arg(a) = &mut st.fields[i] else { unreachable!() };
                if !a.conflicts.contains(&c) {
                    a.conflicts.push(c);
                }
            }
        }
        if !has_flat && always.is_empty() && self.s.pct(self.k.exclusive * 3) {
            let i = *self.s.pick(&idx);
            let pos = st.positionals();
            let Field::Arg(a) = &mut st.fields[i] else { unreachable!() };
            if a.requires.is_empty() && (a.named || a.last || pos.first() == Some(&i)) {
                a.exclusive = true;
            }
        }
    }
}
