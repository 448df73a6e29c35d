//! Rust source of a definition.
use crate::hostile::{Env, dictionary};
use crate::spec::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;

/// Items to put next to a definition (name and source), and texts to pass through a macro.
pub type Side = (Vec<(String, String)>, BTreeMap<String, (char, String)>);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
    S(usize),
    E(usize),
    V(usize),
}

/// Textual changes to a definition.
#[derive(Clone, Debug, Default)]
pub struct Edit {
    /// Struct, field, and a text to put into its `arg(..)`; the number picks the place.
    pub args: Vec<(usize, usize, usize, String)>,
    /// Struct, field, and an attribute of its own.
    pub raw: Vec<(usize, usize, String)>,
    /// Struct and field without their own attributes.
    pub bare: Vec<(usize, usize)>,
    pub ty: Vec<(usize, usize, String)>,
    /// Struct, field before which to add, and the text of the new field.
    pub fields: Vec<(usize, usize, String)>,
    /// Attributes of items, and of inline structs.
    pub container: Vec<(Item, String)>,
    /// Enum, variant before which to add, and the text.
    pub variants: Vec<(Item, usize, String)>,
    /// Enum, variant, and an attribute.
    pub vattrs: Vec<(Item, usize, String)>,
    pub generics: Vec<(Item, String, String)>,
    /// What follows the derives in place of the item.
    pub shape: Vec<(Item, String)>,
    pub derives: Vec<(Item, String)>,
    /// More items.
    pub extra: String,
    /// Fields and variants to leave out, for shrinking.
    pub skip: Vec<(Item, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Emit {
    /// The derive crate: `palc` or `clap`.
    pub krate: String,
    /// No `ToVal` impls.
    pub bare: bool,
    /// Written for a hostile environment.
    pub hostile: Option<Env>,
    /// Changes that make the definition invalid.
    pub edit: Option<Edit>,
    side: RefCell<Side>,
}

impl Emit {
    pub fn palc() -> Emit {
        Emit { krate: "palc".into(), ..Emit::default() }
    }
    pub fn clap() -> Emit {
        Emit { krate: "clap".into(), ..Emit::default() }
    }
    /// Without the conversion to `Val`.
    pub fn bare() -> Emit {
        Emit { krate: "palc".into(), bare: true, ..Emit::default() }
    }
    pub fn take_side(&self) -> Side {
        self.side.take()
    }

    fn is_clap(&self) -> bool {
        self.krate == "clap"
    }

    pub fn ty(&self, spec: &Spec, t: Ty) -> String {
        let s = self.ty_path(spec, t);
        if self.hostile.as_ref().is_some_and(|e| e.style >= 2 && e.seed >> (s.len() % 32) & 1 == 1)
        {
            return self.through_macro('t', s);
        }
        s
    }

    fn through_macro(&self, frag: char, s: String) -> String {
        let map = &mut self.side.borrow_mut().1;
        if let Some((k, _)) = map.iter().find(|(_, v)| **v == (frag, s.clone())) {
            return k.clone();
        }
        let k = format!("zq{frag}_{}", map.len());
        map.insert(k.clone(), (frag, s));
        k
    }

    fn ty_path(&self, spec: &Spec, t: Ty) -> String {
        if self.hostile.is_some() {
            match t {
                Ty::Str => return "::std::string::String".into(),
                Ty::U8 => return "::core::primitive::u8".into(),
                Ty::I32 => return "::core::primitive::i32".into(),
                Ty::I64 => return "::core::primitive::i64".into(),
                Ty::F64 => return "::core::primitive::f64".into(),
                Ty::Char => return "::core::primitive::char".into(),
                Ty::Bool => return "::core::primitive::bool".into(),
                _ => {}
            }
        }
        match t {
            Ty::Str => "String".into(),
            Ty::OsStr => "::std::ffi::OsString".into(),
            Ty::Path => "::std::path::PathBuf".into(),
            Ty::U8 => "u8".into(),
            Ty::I32 => "i32".into(),
            Ty::I64 => "i64".into(),
            Ty::F64 => "f64".into(),
            Ty::Char => "char".into(),
            Ty::Bool => "bool".into(),
            Ty::Nz => "::std::num::NonZeroU32".into(),
            Ty::Even => "::engine::types::Even".into(),
            Ty::Tagged => "::engine::types::Tagged".into(),
            Ty::Dual => "::engine::types::Dual".into(),
            Ty::Infal => "::engine::types::Infal".into(),
            Ty::BoxOs => "::std::boxed::Box<::std::ffi::OsStr>".into(),
            Ty::Cust => "Cust".into(),
            Ty::Venum(k) if spec.venums[k].param => format!("{}<3>", spec.venums[k].name),
            Ty::Venum(k) => spec.venums[k].name.clone(),
        }
    }

    pub fn field_ty(&self, spec: &Spec, a: &Arg) -> String {
        let t = self.ty(spec, a.ty);
        match a.kind {
            Kind::Bool => "bool".into(),
            Kind::Value => t,
            Kind::Opt => format!("Option<{t}>"),
            Kind::OptOpt => format!("Option<Option<{t}>>"),
            Kind::Vec => format!("Vec<{t}>"),
            Kind::OptVec => format!("Option<Vec<{t}>>"),
        }
    }

    fn doc(&self, out: &mut String, ind: &str, doc: &[String]) {
        for d in doc {
            // Alternate between the two spellings of the same thing.
            if d.contains('\\') || d.contains('\t') {
                let _ = writeln!(out, "{ind}#[doc = {d:?}]");
            } else {
                let _ = writeln!(out, "{ind}/// {d}");
            }
        }
    }

    pub fn attrs(&self, spec: &Spec, st: &Struct, a: &Arg) -> Vec<String> {
        let mut v = vec![];
        let si = spec.structs.iter().position(|x| std::ptr::eq(x, st)).unwrap_or(usize::MAX);
        let here = |i: &&usize| !self.skipped(Item::S(si), **i);
        let name = |i: usize| {
            let f = &st.fields[i];
            format!("{:?}", if self.is_clap() { f.plain() } else { f.ident() })
        };
        match &a.long {
            Some(None) => v.push("long".to_string()),
            Some(Some(n)) => v.push(format!("long = {n:?}")),
            None => {}
        }
        match &a.short {
            Some(None) => v.push("short".to_string()),
            Some(Some(n)) => v.push(format!("short = {n:?}")),
            None => {}
        }
        match (&a.aliases[..], a.style & 1) {
            ([], _) => {}
            ([x], 0) => v.push(format!("alias = {x:?}")),
            (xs, 0) if !self.is_clap() => {
                // Several attributes accumulate.
                v.push(format!("alias = {:?}", xs[0]));
                v.push(format!("aliases = {:?}", &xs[1..]));
            }
            (xs, _) => v.push(format!("aliases = {xs:?}")),
        }
        match (&a.short_aliases[..], a.style & 1) {
            ([], _) => {}
            ([x], 0) => v.push(format!("short_alias = {x:?}")),
            (xs, _) if xs.len() > 1 && a.order % 3 == 1 && !self.is_clap() => {
                v.push(format!("short_aliases = {:?}", &xs[1..]));
                v.push(format!("short_alias = {:?}", xs[0]));
            }
            (xs, _) => v.push(format!("short_aliases = {xs:?}")),
        }
        if let Some(n) = &a.value_name {
            v.push(format!("value_name = {n:?}"));
        }
        let mut flag = |on: bool, n: &str| {
            if on {
                v.push(format!("{n} = true"));
            }
        };
        flag(a.req_eq, "require_equals");
        flag(a.global, "global");
        flag(a.hyphen == Hyphen::Any, "allow_hyphen_values");
        flag(a.hyphen == Hyphen::Num, "allow_negative_numbers");
        flag(a.ignore_case, "ignore_case");
        flag(a.trailing, "trailing_var_arg");
        flag(a.last, "last");
        flag(a.required, "required");
        flag(a.exclusive, "exclusive");
        flag(a.hide, "hide");
        if let Some(d) = a.delim {
            if d == ',' && a.style & 2 != 0 && !self.is_clap() {
                v.push("use_value_delimiter = true".into());
            } else {
                v.push(format!("value_delimiter = {d:?}"));
            }
        }
        if matches!(a.ty, Ty::Venum(_)) && (a.style & 4 != 0 || self.is_clap()) {
            v.push("value_enum".into());
        }
        match &a.dflt {
            None => {}
            Some(Dflt::Str(s)) => v.push(format!("default_value = {s:?}")),
            Some(Dflt::Inherit) => v.push("default_value_t".into()),
            Some(Dflt::Expr { expr, .. }) => {
                let mut e = expr.clone();
                for (i, ve) in spec.venums.iter().enumerate().rev() {
                    e = e.replace(&format!("$VE{i}::"), &format!("{}::", ve.name));
                }
                if let Some(env) = &self.hostile {
                    e = self.hostile_expr(spec, env, a, e);
                }
                v.push(format!("default_value_t = {e}"));
            }
        }
        for &r in a.requires.iter().filter(here) {
            v.push(format!("requires = {}", name(r)));
        }
        let conflicts: Vec<usize> = a.conflicts.iter().filter(here).copied().collect();
        match (&conflicts[..], a.style & 2) {
            ([], _) => {}
            (cs, 0) => v.extend(cs.iter().map(|&c| format!("conflicts_with = {}", name(c)))),
            (cs, _) if cs.len() > 1 && a.order % 3 == 1 && !self.is_clap() => {
                let some: Vec<String> = cs[1..].iter().map(|&c| name(c)).collect();
                let all = some.join(", ");
                if some.len() == 1 {
                    v.push(format!("conflicts_with_all = {all}"));
                } else {
                    v.push(format!("conflicts_with_all = [{all},]"));
                }
                v.push(format!("conflicts_with = {}", name(cs[0])));
            }
            (cs, _) => v.push(format!(
                "conflicts_with_all = [{}]",
                cs.iter().map(|&c| name(c)).collect::<Vec<_>>().join(", ")
            )),
        }
        v
    }

    /// The same expression without the prelude, by way of an item called like the field, or of a macro.
    fn hostile_expr(&self, spec: &Spec, env: &Env, a: &Arg, mut e: String) -> String {
        if let Some(end) = e.rfind(".into()") {
            let start = e.find('"').unwrap();
            e = format!(
                "{}::std::convert::From::from({}){}",
                &e[..start],
                &e[start..end],
                &e[end + 7..]
            );
        }
        e = e.replace("::std::string::String::from(", "::std::borrow::ToOwned::to_owned(");
        let how = env.seed.rotate_right(a.plain_ident().len() as u32 * 7) % 4;
        let plain = |n: &str| n.trim_start_matches("r#").to_string();
        let is_free =
            |name: &str| !self.side.borrow().0.iter().any(|(n, _)| plain(n) == plain(name));
        let mut name = a.ident();
        let is_type = |n: &str| {
            spec.structs.iter().any(|s| plain(&s.name) == n)
                || spec.enums.iter().any(|s| plain(&s.name) == n)
                || spec.venums.iter().any(|s| plain(&s.name) == n)
                || crate::hostile::IMPORTED.contains(&n)
        };
        // Called like something that the derive macro writes, rather.
        let dict = dictionary();
        let h = crate::src::fnv(&[format!("{} {}", env.seed, a.plain_ident()).as_bytes()]);
        if !dict.is_empty() && h % 3 != 0 {
            let n = dict[(h / 8 % dict.len() as u64) as usize].replace("{}", &a.plain_ident());
            if is_free(&n) && !is_type(&n) {
                name = raw_ident(&n);
            }
        }
        if how < 2 && is_free(&name) && !name.starts_with("__") && name != "_" {
            let ty = self.ty_path(spec, a.ty);
            let (item, used) = match a.ty {
                Ty::U8 | Ty::I32 | Ty::I64 | Ty::F64 | Ty::Char | Ty::Bool | Ty::Even
                    if how == 0 && !e.contains("black_box") && !e.contains("unwrap") =>
                {
                    (format!("const {name}: {ty} = {e};\n"), name.clone())
                }
                _ if h / 3 % 3 == 0 && !is_type(&plain(&name)) => (
                    format!("struct {name};\nimpl {name} {{ fn zq_v() -> {ty} {{ {e} }} }}\n"),
                    format!("{name}::zq_v()"),
                ),
                _ => (format!("fn {name}() -> {ty} {{ {e} }}\n"), format!("{name}()")),
            };
            self.side.borrow_mut().0.push((name, item));
            return used;
        }
        if env.style >= 2 && how == 2 {
            return self.through_macro('e', e);
        }
        e
    }

    fn skipped(&self, item: Item, k: usize) -> bool {
        self.edit.as_ref().is_some_and(|e| e.skip.contains(&(item, k)))
    }

    fn fields(&self, out: &mut String, ind: &str, spec: &Spec, st: &Struct, vis: &str) {
        let si = spec.structs.iter().position(|x| std::ptr::eq(x, st)).unwrap_or(usize::MAX);
        let none = Edit::default();
        let edit = self.edit.as_ref().unwrap_or(&none);
        for k in 0..=st.fields.len() {
            for (_, _, t) in edit.fields.iter().filter(|x| (x.0, x.1) == (si, k)) {
                let _ = writeln!(out, "{ind}{t}");
            }
            if k == st.fields.len() || self.skipped(Item::S(si), k) {
                continue;
            }
            for (_, _, t) in edit.raw.iter().filter(|x| (x.0, x.1) == (si, k)) {
                let _ = writeln!(out, "{ind}{t}");
            }
            let mut text = String::new();
            self.field(&mut text, ind, spec, st, &st.fields[k], vis, (si, k));
            if edit.bare.contains(&(si, k)) {
                text = text.lines().last().unwrap().to_string() + "\n";
            }
            out.push_str(&text);
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn field(
        &self,
        out: &mut String,
        ind: &str,
        spec: &Spec,
        st: &Struct,
        f: &Field,
        vis: &str,
        at: (usize, usize),
    ) {
        let edit = self.edit.as_ref();
        let ty = |t: String| match edit.and_then(|e| e.ty.iter().find(|x| (x.0, x.1) == at)) {
            Some(x) => x.2.clone(),
            None => t,
        };
        match f {
            Field::Arg(a) => {
                if a.order != 0 && edit.is_none() && !self.is_clap() {
                    return self.odd_field(out, ind, spec, st, a, vis);
                }
                self.doc(out, ind, &a.doc);
                let mut attrs = self.attrs(spec, st, a);
                if let Some(e) = edit {
                    for (_, _, p, t) in e.args.iter().filter(|x| (x.0, x.1) == at) {
                        attrs.insert(p % (attrs.len() + 1), t.clone());
                    }
                }
                if !attrs.is_empty() {
                    if a.style & 4 != 0 && attrs.len() > 1 {
                        // Split over two attributes.
                        let k = attrs.len() / 2;
                        let _ = writeln!(out, "{ind}#[arg({})]", attrs[..k].join(", "));
                        let _ = writeln!(out, "{ind}#[arg({},)]", attrs[k..].join(", "));
                    } else {
                        let _ = writeln!(out, "{ind}#[arg({})]", attrs.join(", "));
                    }
                }
                let _ = writeln!(out, "{ind}{vis}{}: {},", a.ident(), ty(self.field_ty(spec, a)));
            }
            Field::Flat { ident, st } => {
                let _ = writeln!(out, "{ind}#[command(flatten)]");
                let _ = writeln!(out, "{ind}{vis}{ident}: {},", ty(spec.structs[*st].name.clone()));
            }
            Field::Sub { ident, en, optional } => {
                let t = &spec.enums[*en].name;
                let t = if *optional { format!("Option<{t}>") } else { t.clone() };
                let _ = writeln!(out, "{ind}#[command(subcommand)]");
                let _ = writeln!(out, "{ind}{vis}{ident}: {},", ty(t));
            }
        }
    }

    /// The same as always, in another order and with other things around.
    fn odd_field(&self, out: &mut String, ind: &str, spec: &Spec, st: &Struct, a: &Arg, vis: &str) {
        let mut bits = u64::from(a.order).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let mut below = |n: usize| {
            bits ^= bits >> 29;
            bits = bits.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            (bits >> 33) as usize % n
        };
        let mut attrs = self.attrs(spec, st, a);
        for i in (1..attrs.len()).rev() {
            attrs.swap(i, below(i + 1));
        }
        let mut groups: Vec<Vec<String>> = vec![];
        for t in attrs {
            if groups.is_empty() || below(3) == 0 {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(t);
        }
        let mut lines: Vec<String> = groups
            .iter()
            .map(|g| {
                let t = g.join(", ");
                match below(8) {
                    0 => format!("#[cfg_attr(all(), arg({t}))]"),
                    1 => format!("#[arg({t},)]"),
                    2 => format!("#[cfg_attr(any(), arg(zq))] #[arg{{{t}}}]"),
                    3 => format!("#[arg[{t}]]"),
                    _ => format!("#[arg({t})]"),
                }
            })
            .collect();
        match below(12) {
            0 => lines.push("#[allow(dead_code)]".into()),
            1 => lines.push("#[doc(hidden)]".into()),
            2 => lines.push("#[doc(alias = \"zq\")]".into()),
            3 => lines.push("#[arg()]".into()),
            4 => {
                let _ = writeln!(out, "{ind}#[cfg(any())]\n{ind}gone_{}: NoSuchType,", a.order);
            }
            _ => {}
        }
        let k = below(lines.len() + 1);
        let how = below(4);
        for (i, t) in lines.iter().enumerate() {
            // Lines of documentation, possibly with attributes in between.
            if i == k {
                self.odd_doc(out, ind, &a.doc, how);
            }
            let _ = writeln!(out, "{ind}{t}");
        }
        if k == lines.len() {
            self.odd_doc(out, ind, &a.doc, how);
        }
        let vis = match below(4) {
            _ if self.bare || vis.is_empty() => vis,
            0 => "",
            1 => "pub(crate) ",
            _ => vis,
        };
        let _ = writeln!(out, "{ind}{vis}{}: {},", a.ident(), self.field_ty(spec, a));
    }

    fn odd_doc(&self, out: &mut String, ind: &str, doc: &[String], how: usize) {
        for (i, d) in doc.iter().enumerate() {
            let _ = match how {
                1 if i % 2 == 0 => writeln!(out, "{ind}#[doc = {d:?}]"),
                2 => writeln!(out, "{ind}#[doc = {:?}]", format!("   {d} \t")),
                3 if !d.contains("*/")
                    && !d.contains("/*")
                    && !d.is_empty()
                    && !d.contains('\\') =>
                {
                    writeln!(out, "{ind}/** {d} */")
                }
                _ if d.contains(['\\', '\t']) || d.starts_with('/') => {
                    writeln!(out, "{ind}#[doc = {d:?}]")
                }
                _ => writeln!(out, "{ind}///{d}"),
            };
            if i % 3 == 1 && how == 1 {
                let _ = writeln!(out, "{ind}#[doc(alias = \"zq{i}\")]");
            }
        }
    }

    fn text(&self, form: u8, s: &str) -> String {
        if self.hostile.is_some() || self.edit.is_some() || self.is_clap() {
            return format!("{s:?}");
        }
        match form {
            1 => format!("{{ {s:?} }}"),
            3 => format!("(0, {s:?}).1"),
            2 => {
                let at = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0);
                format!("concat!({:?}, {:?})", &s[..at], &s[at..])
            }
            _ => format!("{s:?}"),
        }
    }

    fn container_edit(&self, out: &mut String, ind: &str, item: Item) {
        if let Some(e) = &self.edit {
            for (_, t) in e.container.iter().filter(|x| x.0 == item) {
                let _ = writeln!(out, "{ind}{t}");
            }
        }
    }

    /// Whether the rest of the item is replaced.
    fn head(&self, out: &mut String, item: Item, what: &str, name: &str, param: bool) -> bool {
        let none = Edit::default();
        let edit = self.edit.as_ref().unwrap_or(&none);
        for (_, t) in edit.derives.iter().filter(|x| x.0 == item) {
            let _ = writeln!(out, "{t}");
        }
        self.container_edit(out, "", item);
        if let Some((_, t)) = edit.shape.iter().find(|x| x.0 == item) {
            let _ = writeln!(out, "{t}");
            return true;
        }
        let (g, w) = edit
            .generics
            .iter()
            .find(|x| x.0 == item)
            .map_or(("", ""), |x| (x.1.as_str(), x.2.as_str()));
        let g = if param { "<const ZQ: ::core::primitive::usize>" } else { g };
        let _ = writeln!(out, "pub {what} {name}{g} {w}{{");
        false
    }

    /// Added variants before the `k`th, and attributes of the `k`th.
    fn variant_edit(&self, out: &mut String, item: Item, k: usize) {
        if let Some(e) = &self.edit {
            for (_, _, t) in e.variants.iter().filter(|x| (x.0, x.1) == (item, k)) {
                let _ = writeln!(out, "    {t}");
            }
            for (_, _, t) in e.vattrs.iter().filter(|x| (x.0, x.1) == (item, k)) {
                let _ = writeln!(out, "    {t}");
            }
        }
    }

    fn container(&self, out: &mut String, ind: &str, st: &Struct) {
        if self.is_clap() && st.sub().is_some() {
            let _ = writeln!(out, "{ind}#[command(disable_help_subcommand = true)]");
        }
        self.doc(out, ind, &st.doc);
        if let Some(s) = &st.long_about {
            if s == "generated" && self.edit.is_none() && !self.is_clap() {
                let _ = writeln!(out, "{ind}#[command(long_about)]");
            } else {
                let _ = writeln!(out, "{ind}#[command(long_about = {})]", self.text(st.form, s));
            }
        }
        if let Some(s) = &st.after {
            let _ = writeln!(out, "{ind}#[command(after_long_help = {})]", self.text(st.form, s));
        }
    }

    pub fn strukt(&self, out: &mut String, spec: &Spec, i: usize) {
        let st = &spec.structs[i];
        let k = &self.krate;
        let d = if i == 0 || st.name.starts_with("InnerP") { "Parser" } else { "Args" };
        let more = if self.is_clap() { ", Clone" } else { "" };
        let _ = writeln!(out, "#[derive(::{k}::{d}{more})]");
        self.container(out, "", st);
        if self.head(out, Item::S(i), "struct", &st.name, false) {
            return;
        }
        self.fields(out, "    ", spec, st, "pub ");
        let _ = writeln!(out, "}}");
    }

    pub fn sub_enum(&self, out: &mut String, spec: &Spec, i: usize) {
        let e = &spec.enums[i];
        let more = if self.is_clap() { ", Clone" } else { "" };
        let _ = writeln!(out, "#[derive(::{}::Subcommand{more})]", self.krate);
        if self.head(out, Item::E(i), "enum", &e.name, false) {
            return;
        }
        for (k, v) in e.variants.iter().enumerate() {
            self.variant_edit(out, Item::E(i), k);
            if self.skipped(Item::E(i), k) {
                continue;
            }
            match v.body {
                Body::Unit => {
                    self.doc(out, "    ", &v.doc);
                    if let Some(s) = &v.after {
                        let _ = writeln!(out, "    #[command(after_long_help = {s:?})]");
                    }
                    let _ = writeln!(out, "    {},", v.ident());
                }
                Body::Newtype(s) => {
                    let _ = writeln!(out, "    {}({}),", v.ident(), spec.structs[s].name);
                }
                Body::Inline(s) => {
                    let st = &spec.structs[s];
                    self.container(out, "    ", st);
                    self.container_edit(out, "    ", Item::S(s));
                    let _ = writeln!(out, "    {} {{", v.ident());
                    self.fields(out, "        ", spec, st, "");
                    let _ = writeln!(out, "    }},");
                }
            }
        }
        self.variant_edit(out, Item::E(i), e.variants.len());
        let _ = writeln!(out, "}}");
    }

    pub fn venum(&self, out: &mut String, spec: &Spec, i: usize) {
        let e = &spec.venums[i];
        let _ = writeln!(
            out,
            "#[derive(::{}::ValueEnum, ::std::default::Default, ::std::clone::Clone)]",
            self.krate
        );
        if let Some(r) = e.rename {
            let _ = writeln!(out, "#[value(rename_all = {:?})]", RENAMES[r]);
        }
        let at = i;
        if self.head(out, Item::V(i), "enum", &e.name, e.param) {
            return;
        }
        for (i, v) in e.variants.iter().enumerate() {
            self.variant_edit(out, Item::V(at), i);
            if self.skipped(Item::V(at), i) {
                continue;
            }
            if i == 0 {
                let _ = writeln!(out, "    #[default]");
            }
            if let Some(n) = &v.name {
                let _ = writeln!(out, "    #[value(name = {n:?})]");
            }
            let _ = writeln!(out, "    {},", v.ident());
        }
        self.variant_edit(out, Item::V(at), e.variants.len());
        let _ = writeln!(out, "}}");
        let name = format!("{}{}", e.name, if e.param { "<3>" } else { "" });
        let first = format!("{}::{}", e.name, e.variants[0].ident());
        // Changes to the first variant must be the only thing that is wrong.
        let decoys = if self.edit.is_some() { 0 } else { e.decoys };
        if decoys & 1 != 0 {
            let _ = writeln!(
                out,
                "impl ::std::str::FromStr for {name} {{ type Err = ::std::string::String; fn from_str(_: &::core::primitive::str) -> ::std::result::Result<Self, ::std::string::String> {{ ::std::result::Result::Ok({first}) }} }}"
            );
        }
        if decoys & 2 != 0 {
            let _ = writeln!(
                out,
                "impl ::std::convert::From<&::std::ffi::OsStr> for {name} {{ fn from(_: &::std::ffi::OsStr) -> Self {{ {first} }} }}"
            );
        }
        if decoys & 4 != 0 {
            let _ = writeln!(
                out,
                "impl ::std::fmt::Display for {name} {{ fn fmt(&self, zq_x: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ zq_x.write_str(\"not its name\") }} }}"
            );
        }
        if !self.bare {
            let _ = writeln!(
                out,
                "impl ::engine::types::ToVal for {}{} {{ fn to_val(&self) -> ::engine::types::Val {{",
                e.name,
                if e.param { "<3>" } else { "" }
            );
            let _ = writeln!(out, "    ::engine::types::Val::Leaf(match self {{");
            for (i, v) in e.variants.iter().enumerate() {
                let _ = writeln!(out, "        {}::{} => b\"#{i}\".to_vec(),", e.name, v.ident());
            }
            let _ = writeln!(out, "    }})\n}} }}");
        }
    }

    fn body_val(&self, st: &Struct, acc: &dyn Fn(&str) -> String) -> String {
        let mut s = "::engine::types::Val::Struct(::std::vec![".to_string();
        for f in &st.fields {
            let e = acc(&f.ident());
            let v = match f {
                Field::Flat { .. } => format!(
                    "match ::engine::types::ToVal::to_val({e}) {{ ::engine::types::Val::Struct(zq_v) => ::engine::types::Val::Flat(zq_v), zq_v => zq_v }}"
                ),
                _ => format!("::engine::types::ToVal::to_val({e})"),
            };
            let _ = write!(s, "(::std::borrow::ToOwned::to_owned({:?}), {v}), ", f.plain());
        }
        s + "])"
    }

    pub fn strukt_val(&self, out: &mut String, spec: &Spec, i: usize) {
        let st = &spec.structs[i];
        let _ = writeln!(
            out,
            "impl ::engine::types::ToVal for {} {{ fn to_val(&self) -> ::engine::types::Val {{ {} }} }}",
            st.name,
            self.body_val(st, &|f| format!("&self.{f}"))
        );
    }

    pub fn enum_val(&self, out: &mut String, spec: &Spec, i: usize) {
        let e = &spec.enums[i];
        let _ = writeln!(
            out,
            "impl ::engine::types::ToVal for {} {{ fn to_val(&self) -> ::engine::types::Val {{ match *self {{",
            e.name
        );
        for v in &e.variants {
            let id = v.ident();
            let (pat, val) = match v.body {
                Body::Unit => (String::new(), "::engine::types::Val::Unit".to_string()),
                Body::Newtype(_) => {
                    ("(ref zq_x)".into(), "::engine::types::ToVal::to_val(zq_x)".into())
                }
                Body::Inline(s) => {
                    let st = &spec.structs[s];
                    let fs: Vec<String> = st
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(k, f)| format!("{}: ref zq_x{k}", f.ident()))
                        .collect();
                    let pos = |f: &str| st.fields.iter().position(|g| g.ident() == f).unwrap();
                    (
                        format!(" {{ {} }}", fs.join(", ")),
                        self.body_val(st, &|f| format!("zq_x{}", pos(f))),
                    )
                }
            };
            let _ = writeln!(
                out,
                "    {}::{id}{pat} => ::engine::types::Val::Variant(::std::borrow::ToOwned::to_owned({:?}), ::std::boxed::Box::new({val})),",
                e.name,
                v.cmd()
            );
        }
        let _ = writeln!(out, "}} }} }}");
    }

    /// A type with the library's own error.
    pub fn cust(&self, out: &mut String, spec: &Spec) {
        if !spec.structs.iter().any(|s| s.args().any(|(_, a)| a.ty == Ty::Cust)) {
            return;
        }
        out.push_str(
            "#[derive(::std::default::Default, ::std::clone::Clone)]
pub struct Cust(pub ::std::string::String);
impl ::std::str::FromStr for Cust {
    type Err = ::palc::Error;
    fn from_str(zq_x: &::core::primitive::str) -> ::std::result::Result<Self, ::palc::Error> {
        if ::std::iter::Iterator::any(&mut zq_x.chars(), |zq_v| zq_v.is_uppercase()) {
            ::std::result::Result::Err(::palc::Error::custom(::std::format!(\"upper case in {zq_x:?}\")))
        } else {
            ::std::result::Result::Ok(Cust(<::std::string::String as ::std::convert::From<&::core::primitive::str>>::from(zq_x)))
        }
    }
}
impl ::std::fmt::Display for Cust {
    fn fmt(&self, zq_x: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        ::std::fmt::Display::fmt(&self.0, zq_x)
    }
}
",
        );
        if !self.bare {
            out.push_str("impl ::engine::types::ToVal for Cust { fn to_val(&self) -> ::engine::types::Val { ::engine::types::Val::Leaf([&b\"cust:\"[..], self.0.as_bytes()].concat()) } }\n");
        }
    }

    pub fn module(&self, spec: &Spec) -> String {
        let mut o = String::new();
        self.cust(&mut o, spec);
        for i in 0..spec.venums.len() {
            self.venum(&mut o, spec, i);
        }
        for i in 0..spec.structs.len() {
            if !spec.structs[i].inline {
                self.strukt(&mut o, spec, i);
                if !self.bare {
                    self.strukt_val(&mut o, spec, i);
                }
            }
        }
        for i in 0..spec.enums.len() {
            self.sub_enum(&mut o, spec, i);
            if !self.bare {
                self.enum_val(&mut o, spec, i);
            }
        }
        o
    }
}
