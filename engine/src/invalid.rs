//! Valid definitions made invalid in one place.
use crate::emit::{Edit, Emit, Item};
use crate::run::{draw, js};
use crate::schema::Gen;
use crate::spec::*;
use crate::src::Src;
use std::fmt::Write;

/// Who has to complain.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum By {
    /// The macro, in words of its own (at expansion or by a constant assertion).
    Macro,
    /// Anyone.
    Any,
}

pub struct Mutant {
    pub rule: &'static str,
    pub by: By,
    pub item: Item,
    pub spec: Spec,
    pub edit: Edit,
    /// Fields and variants that shrinking must not touch.
    pub keep: Vec<(Item, usize)>,
}

struct M<'a, 'b> {
    spec: Spec,
    edit: Edit,
    keep: Vec<(Item, usize)>,
    s: &'a mut Src<'b>,
}

type Rule = (&'static str, By, fn(&mut M) -> Option<Item>);

const CONTROL: &[char] = &['\0', '\u{1}', '\t', '\n', '\u{1b}', '\u{7f}', '\u{1f}'];

impl M<'_, '_> {
    /// A random field of which `f` holds.
    fn arg(&mut self, f: impl Fn(&Arg) -> bool) -> Option<(usize, usize)> {
        self.arg_in(|_, a| f(a))
    }
    fn arg_in(&mut self, f: impl Fn(&Struct, &Arg) -> bool) -> Option<(usize, usize)> {
        let all: Vec<(usize, usize)> = (0..self.spec.structs.len())
            .flat_map(|i| {
                let st = &self.spec.structs[i];
                st.args().filter(|(_, a)| f(st, a)).map(|(k, _)| (i, k)).collect::<Vec<_>>()
            })
            .collect();
        self.choose(&all)
    }
    fn field(&mut self, f: impl Fn(&Field) -> bool) -> Option<(usize, usize)> {
        let all: Vec<(usize, usize)> = (0..self.spec.structs.len())
            .flat_map(|i| {
                let fs = &self.spec.structs[i].fields;
                (0..fs.len()).filter(|&k| f(&fs[k])).map(|k| (i, k)).collect::<Vec<_>>()
            })
            .collect();
        self.choose(&all)
    }
    fn choose<T: Copy>(&mut self, all: &[T]) -> Option<T> {
        if all.is_empty() { None } else { Some(*self.s.pick(all)) }
    }
    fn structs(&mut self, f: impl Fn(&Struct) -> bool) -> Option<usize> {
        let all: Vec<usize> =
            (0..self.spec.structs.len()).filter(|&i| f(&self.spec.structs[i])).collect();
        self.choose(&all)
    }
    fn a(&mut self, at: (usize, usize)) -> &mut Arg {
        match &mut self.spec.structs[at.0].fields[at.1] {
            Field::Arg(a) => a,
            _ => unreachable!(),
        }
    }
    /// The type in whose source a struct is.
    fn item(&self, st: usize) -> Item {
        if !self.spec.structs[st].inline {
            return Item::S(st);
        }
        let e =
            self.spec.enums.iter().position(|e| {
                e.variants.iter().any(|v| matches!(v.body, Body::Inline(s) if s == st))
            });
        Item::E(e.unwrap())
    }
    fn hold(&mut self, at: (usize, usize)) -> Option<Item> {
        self.keep.push((Item::S(at.0), at.1));
        if let Field::Arg(a) = &self.spec.structs[at.0].fields[at.1] {
            let refs: Vec<usize> = a.requires.iter().chain(&a.conflicts).copied().collect();
            self.keep.extend(refs.into_iter().map(|r| (Item::S(at.0), r)));
        }
        Some(self.item(at.0))
    }
    /// Put `text` into the `arg(..)` of a field.
    fn put(&mut self, at: (usize, usize), text: impl Into<String>) -> Option<Item> {
        let p = self.s.below(8);
        let text = text.into();
        if self.s.pct(25) {
            self.edit.raw.push((at.0, at.1, format!("#[arg({text})]")));
        } else {
            self.edit.args.push((at.0, at.1, p, text));
        }
        self.hold(at)
    }
    fn raw(&mut self, at: (usize, usize), text: impl Into<String>) -> Option<Item> {
        self.edit.raw.push((at.0, at.1, text.into()));
        self.hold(at)
    }
    /// A new field at a random place.
    fn add(&mut self, st: usize, text: impl Into<String>) -> Option<Item> {
        let n = self.spec.structs[st].fields.len();
        let k = self.s.below(n + 1);
        self.edit.fields.push((st, k, text.into()));
        Some(self.item(st))
    }
    fn container(&mut self, text: impl Into<String>) -> Option<Item> {
        // Structs, inline structs and unit variants.
        let units: Vec<(usize, usize)> = (0..self.spec.enums.len())
            .flat_map(|e| {
                let vs = &self.spec.enums[e].variants;
                (0..vs.len())
                    .filter(|&k| vs[k].body == Body::Unit)
                    .map(|k| (e, k))
                    .collect::<Vec<_>>()
            })
            .collect();
        let n = self.spec.structs.len();
        let r = self.s.below(n + units.len());
        if r < n {
            self.edit.container.push((Item::S(r), text.into()));
            if let Item::E(e) = self.item(r) {
                let k = self.spec.enums[e]
                    .variants
                    .iter()
                    .position(|v| v.body.st() == Some(r))
                    .unwrap();
                self.keep.push((Item::E(e), k));
            }
            Some(self.item(r))
        } else {
            let (e, k) = units[r - n];
            self.edit.vattrs.push((Item::E(e), k, text.into()));
            self.keep.push((Item::E(e), k));
            Some(Item::E(e))
        }
    }
    fn venum(&mut self) -> Option<usize> {
        let n = self.spec.venums.len();
        if n == 0 { None } else { Some(self.s.below(n)) }
    }
    fn value(&mut self) -> Option<(usize, usize)> {
        let v = self.venum()?;
        Some((v, self.s.below(self.spec.venums[v].variants.len())))
    }
    fn word(&mut self) -> String {
        (*self.s.pick(&["zq", "foo", "a-b", "é", "x", "名前"])).to_string()
    }
    /// A word with something in it that must not be.
    fn spoil(&mut self, bad: char) -> String {
        let w: Vec<char> = self.word().chars().collect();
        let k = self.s.below(w.len() + 1);
        w[..k].iter().chain(&[bad]).chain(&w[k..]).collect()
    }
    fn long_site(&mut self, name: String) -> Option<Item> {
        let at = self.arg(|a| a.named)?;
        match self.s.below(3) {
            0 => self.a(at).long = Some(Some(name)),
            1 => self.a(at).aliases.push(name),
            _ => self.a(at).aliases.insert(0, name),
        }
        self.hold(at)
    }
    fn short_site(&mut self, name: char) -> Option<Item> {
        let at = self.arg(|a| a.named)?;
        match self.s.below(3) {
            0 => self.a(at).short = Some(Some(name)),
            1 => self.a(at).short_aliases.push(name),
            _ => self.a(at).short_aliases.insert(0, name),
        }
        self.hold(at)
    }
}

fn raw_attr(s: &mut Src, pool: &[&str]) -> String {
    (*s.pick(pool)).to_string()
}

const RULES: &[Rule] = &[
    ("an empty long name", By::Macro, |m| m.long_site(String::new())),
    ("a long name that starts with a dash", By::Macro, |m| {
        let w = m.word();
        let p = raw_attr(m.s, &["-", "--", "---"]);
        let w = if m.s.pct(20) { String::new() } else { w };
        m.long_site(format!("{p}{w}"))
    }),
    ("a long name with an equals sign", By::Macro, |m| {
        let n = m.spoil('=');
        m.long_site(n)
    }),
    ("a long name with a control character", By::Macro, |m| {
        let c = *m.s.pick(CONTROL);
        let n = m.spoil(c);
        m.long_site(n)
    }),
    ("a bad short name", By::Macro, |m| {
        let c = *m.s.pick(&['-', '=', '\0', '\u{1}', '\t', '\n', '\u{7f}', '\u{1f}']);
        m.short_site(c)
    }),
    ("a duplicate long name", By::Macro, |m| {
        let from = m.arg(|a| a.named && !a.longs().is_empty())?;
        let names = m.a(from).longs();
        let n = m.s.pick(&names).clone();
        let named: Vec<usize> =
            m.spec.structs[from.0].args().filter(|(_, a)| a.named).map(|(k, _)| k).collect();
        let to = (from.0, m.choose(&named)?);
        m.hold(from);
        m.hold(to);
        if to != from && m.a(to).long.is_none() && m.s.pct(50) {
            m.a(to).long = Some(Some(n));
        } else {
            m.a(to).aliases.push(n);
        }
        Some(m.item(from.0))
    }),
    ("a duplicate short name", By::Macro, |m| {
        let from = m.arg(|a| a.named && !a.shorts().is_empty())?;
        let names = m.a(from).shorts();
        let n = *m.s.pick(&names);
        let named: Vec<usize> =
            m.spec.structs[from.0].args().filter(|(_, a)| a.named).map(|(k, _)| k).collect();
        let to = (from.0, m.choose(&named)?);
        m.hold(from);
        m.hold(to);
        if to != from && m.a(to).short.is_none() && m.s.pct(50) {
            m.a(to).short = Some(Some(n));
        } else {
            m.a(to).short_aliases.push(n);
        }
        Some(m.item(from.0))
    }),
    ("two fields whose inherited names are equal", By::Macro, |m| {
        let from = m.arg(|a| a.named && a.long == Some(None))?;
        m.hold(from);
        let n = m.a(from).plain_ident();
        m.add(from.0, format!("#[arg(long)] {n}_: bool,"))
    }),
    ("two fields with the same inherited initial", By::Macro, |m| {
        let from = m.arg(|a| a.named && a.short_name().is_some_and(|c| c.is_ascii_lowercase()))?;
        m.hold(from);
        let c = m.a(from).short_name().unwrap();
        m.add(from.0, format!("#[arg(short)] {c}zq: bool,"))
    }),
    ("a value name with a control character", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let c = *m.s.pick(CONTROL);
        m.a(at).value_name = None;
        let n = m.spoil(c);
        m.a(at).value_name = Some(n);
        m.hold(at)
    }),
    ("two variants with the same subcommand name", By::Macro, |m| {
        let n = m.spec.enums.len();
        if n == 0 {
            return None;
        }
        let e = m.s.below(n);
        let k = m.s.below(m.spec.enums[e].variants.len());
        let v = &m.spec.enums[e].variants[k];
        let (plain, snake) = (v.plain_ident(), v.words.join("_"));
        let id = match m.s.below(2) {
            1 if snake != plain && !snake.starts_with(|c: char| c.is_ascii_digit()) => {
                raw_ident(&snake)
            }
            _ => format!("{plain}_"),
        };
        let args = m.spec.structs.iter().skip(1).find(|s| !s.inline).map(|s| s.name.clone());
        let body = match (m.s.below(3), args) {
            (0, _) => String::new(),
            (1, Some(t)) => format!("({t})"),
            _ => " { #[arg(long)] zq: bool }".into(),
        };
        m.keep.push((Item::E(e), k));
        let p = m.s.below(m.spec.enums[e].variants.len() + 1);
        m.edit.variants.push((Item::E(e), p, format!("{id}{body},")));
        Some(Item::E(e))
    }),
    ("two variants with the same value name", By::Macro, |m| {
        let (v, k) = m.value()?;
        let ve = &m.spec.venums[v];
        let name = ve.value_name(k);
        let heck = ve.rename.is_none_or(|r| r < 5);
        let id = ve.variants[k].plain_ident();
        let n = ve.variants.len();
        let t = if ve.variants[k].name.is_none() && heck && m.s.pct(50) {
            format!("{id}_,")
        } else {
            format!("#[value(name = {name:?})] Zqx,")
        };
        m.keep.push((Item::V(v), k));
        let p = m.s.below(n + 1);
        m.edit.variants.push((Item::V(v), p, t));
        Some(Item::V(v))
    }),
    ("a value name with a control character in it", By::Macro, |m| {
        let (v, k) = m.value()?;
        let c = *m.s.pick(CONTROL);
        let n = m.spoil(c);
        m.spec.venums[v].variants[k].name = Some(n);
        m.keep.push((Item::V(v), k));
        Some(Item::V(v))
    }),
    ("an unknown attribute in arg", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "num_args = 1",
                "env",
                "env = \"X\"",
                "visible_alias = \"zq\"",
                "index = 1",
                "overrides_with = \"zq\"",
                "value_parser",
                "id = \"zq\"",
                "Long",
                "longs",
                "display_order = 1",
                "help_heading = \"x\"",
                "foo::long",
                "group = \"zq\"",
                "default_missing_value = \"1\"",
                "value_hint = 3",
                "raw = true",
                "flatten",
                "subcommand",
                "long_about = \"x\"",
                "name = \"x\"",
                "required_unless_present = \"x\"",
                "last_ = true",
                "action = Count",
            ],
        );
        m.put(at, t)
    }),
    ("an attribute given twice", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let st = &m.spec.structs[at.0];
        let Field::Arg(a) = &st.fields[at.1] else { unreachable!() };
        let once = [
            "long",
            "short",
            "value_name",
            "require_equals",
            "global",
            "allow_hyphen_values",
            "allow_negative_numbers",
            "trailing_var_arg",
            "last",
            "default_value",
            "default_value_t",
            "value_delimiter",
            "use_value_delimiter",
            "value_enum",
            "ignore_case",
            "hide",
            "required",
            "exclusive",
        ];
        let has: Vec<String> = Emit::bare()
            .attrs(&m.spec, st, a)
            .into_iter()
            .filter(|t| once.contains(&t.split(' ').next().unwrap()))
            .collect();
        if has.is_empty() {
            let t = raw_attr(
                m.s,
                &["hide = true", "value_name = \"A\"", "help = \"x\"", "long_help = \"x\""],
            );
            m.put(at, t.clone());
            return m.put(at, t);
        }
        let mut t = m.s.pick(&has).clone();
        if t.starts_with("value_delimiter") && m.s.pct(40) {
            t = "use_value_delimiter = true".into();
        }
        if t == "long" && m.s.pct(40) {
            t = "long = \"zq-other\"".into();
        }
        if t == "default_value_t" && m.s.pct(40) {
            t = "default_values_t".into();
        }
        m.put(at, t)
    }),
    ("a flag attribute set to false", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "hide = false",
                "global = false",
                "require_equals = false",
                "allow_hyphen_values = false",
                "required = false",
                "exclusive = false",
                "last = false",
                "trailing_var_arg = false",
                "ignore_case = false",
                "allow_negative_numbers = false",
            ],
        );
        m.put(at, t)
    }),
    ("use_value_delimiter set to false", By::Macro, |m| {
        let at = m.arg(|a| a.kind.multi() && a.delim.is_none())?;
        m.put(at, "use_value_delimiter = false")
    }),
    ("a flag attribute without its value", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "hide",
                "global",
                "require_equals",
                "required",
                "exclusive",
                "last",
                "hide = 1",
                "hide = \"true\"",
                "ignore_case",
                "use_value_delimiter",
                "trailing_var_arg",
                "allow_hyphen_values",
                "hide(true)",
                "last = True",
            ],
        );
        m.put(at, t)
    }),
    ("a value of the wrong kind in arg", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "short = \"a\"",
                "long = 'a'",
                "long = 3",
                "long = foo",
                "alias = 'a'",
                "alias = [3]",
                "alias",
                "aliases = []x",
                "short_alias = \"x\"",
                "short_aliases = [\"x\"]",
                "value_delimiter = \",\"",
                "value_delimiter",
                "value_name = 'x'",
                "value_name",
                "requires = foo",
                "requires = [\"x\"]",
                "requires = \"\"",
                "requires = \"a b\"",
                "requires = \"1\"",
                "requires",
                "conflicts_with = 3",
                "conflicts_with_all",
                "conflicts_with_all = [foo]",
                "default_value = 3",
                "default_value",
                "help = 3",
                "help",
                "long_help",
                "value_enum = true",
                "default_value_t = ",
                "long = ",
                "default_value_t = 1 2",
                "conflicts_with = \"a-b\"",
                "requires = b\"x\"",
                "long(\"x\")",
                "short = b'x'",
            ],
        );
        m.put(at, t)
    }),
    ("a syntax error in arg", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "#[arg]",
                "#[arg = \"x\"]",
                "#[arg(long short)]",
                "#[arg(,)]",
                "#[arg(\"long\")]",
                "#[arg(3)]",
                "#[arg(= 3)]",
                "#[arg(hide = true;)]",
                "#[arg(-)]",
                "#[arg((long))]",
                "#[arg(hide = true,, hide = true)]",
                "#[arg('a')]",
            ],
        );
        m.raw(at, t)
    }),
    ("a bad command attribute on a field", By::Macro, |m| {
        if m.s.pct(50)
            && let Some(at) = m.field(|f| f.arg().is_none())
        {
            m.edit.bare.push(at);
            let t = raw_attr(
                m.s,
                &[
                    "#[command(flattened)]",
                    "#[command(flatten, flatten)]",
                    "#[command(flatten = true)]",
                    "#[command]",
                    "#[command()]",
                    "#[command(subcommand(x))]",
                    "#[command(subcommand = true)]",
                    "#[command(Flatten)]",
                    "#[command(flatten, subcommand)]",
                    "#[command = \"flatten\"]",
                    "#[command(\"flatten\")]",
                ],
            );
            return m.raw(at, t);
        }
        let at = m.arg(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "#[command(name = \"x\")]",
                "#[command(long_about = \"x\")]",
                "#[command(arg)]",
                "#[command]",
                "#[command(3)]",
            ],
        );
        m.raw(at, t)
    }),
    ("both command and arg on a field", By::Macro, |m| {
        let at = m.field(|_| true)?;
        match &m.spec.structs[at.0].fields[at.1] {
            Field::Arg(a) => {
                let has = !Emit::bare().attrs(&m.spec, &m.spec.structs[at.0], a).is_empty();
                if !has {
                    m.raw(at, "#[arg(value_name = \"X\")]");
                }
                let t = raw_attr(m.s, &["#[command(flatten)]", "#[command(subcommand)]"]);
                m.raw(at, t)
            }
            _ => {
                let t = raw_attr(
                    m.s,
                    &[
                        "#[arg(long)]",
                        "#[arg(hide = true)]",
                        "#[arg(value_name = \"x\")]",
                        "#[arg(global = true)]",
                        "#[arg()]",
                    ],
                );
                m.raw(at, t)
            }
        }
    }),
    ("two command attributes on a field", By::Macro, |m| {
        let at = m.field(|f| f.arg().is_none())?;
        let t = raw_attr(m.s, &["#[command(flatten)]", "#[command(subcommand)]"]);
        m.raw(at, t)
    }),
    ("arg on a container", By::Macro, |m| {
        let t = raw_attr(
            m.s,
            &[
                "#[arg(long)]",
                "#[arg(hide = true)]",
                "#[arg()]",
                "#[arg]",
                "#[arg(required = true)]",
            ],
        );
        m.container(t)
    }),
    ("an unknown command attribute on a container", By::Macro, |m| {
        let t = raw_attr(
            m.s,
            &[
                "bin_name = \"x\"",
                "propagate_version = true",
                "next_help_heading = \"x\"",
                "rename_all = \"lower\"",
                "flatten",
                "subcommand",
                "long",
                "hide = true",
                "alias = \"x\"",
                "Name = \"x\"",
                "multicall = true",
                "foo::name = \"x\"",
            ],
        );
        m.container(format!("#[command({t})]"))
    }),
    ("an unsupported command attribute on a container", By::Macro, |m| {
        let t = raw_attr(
            m.s,
            &[
                "about = \"x\"",
                "about",
                "author",
                "author = \"x\"",
                "after_help = \"x\"",
                "after_help",
                "term_width = 80",
                "max_term_width = 80",
                "name = \"x\", about = \"y\"",
            ],
        );
        m.container(format!("#[command({t})]"))
    }),
    ("a command attribute given twice", By::Macro, |m| {
        let t = raw_attr(
            m.s,
            &[
                "#[command(long_about = \"a\", long_about = \"b\")]",
                "#[command(after_long_help = \"a\", after_long_help = \"b\")]",
                "#[command(name = \"a\", name = \"a\")]",
                "#[command(version, version)]",
                "#[command(long_about, long_about)]",
                "#[command(name = \"a\")]\n#[command(name = \"b\")]",
                "#[command(long_about)] #[command(version)] #[command(long_about = \"x\")]",
            ],
        );
        m.container(t)
    }),
    ("a bad value of a command attribute", By::Macro, |m| {
        let t = raw_attr(
            m.s,
            &[
                "#[command(name = 3)]",
                "#[command(name)]",
                "#[command(after_long_help)]",
                "#[command]",
                "#[command(long_about = )]",
                "#[command = \"x\"]",
                "#[command(name(\"x\"))]",
                "#[command(\"x\")]",
                "#[command(name = 'x')]",
                "#[command(,)]",
                "#[command(after_long_help = 1 2)]",
                "#[command(term_width)]",
            ],
        );
        m.container(t)
    }),
    ("attributes or docs on a newtype variant", By::Macro, |m| {
        let all: Vec<(usize, usize)> = (0..m.spec.enums.len())
            .flat_map(|e| {
                let vs = &m.spec.enums[e].variants;
                (0..vs.len())
                    .filter(|&k| matches!(vs[k].body, Body::Newtype(_)))
                    .map(|k| (e, k))
                    .collect::<Vec<_>>()
            })
            .collect();
        let (e, k) = m.choose(&all)?;
        let t = raw_attr(
            m.s,
            &[
                "/// Docs",
                "#[command(name = \"x\")]",
                "#[doc = \"x\"]",
                "#[command(long_about = \"x\")]",
                "#[arg(long)]",
                "#[command()]",
            ],
        );
        m.keep.push((Item::E(e), k));
        m.edit.vattrs.push((Item::E(e), k, t));
        Some(Item::E(e))
    }),
    ("a bad value attribute on an enum", By::Macro, |m| {
        let v = m.venum()?;
        m.spec.venums[v].rename = None;
        let t = raw_attr(
            m.s,
            &[
                "#[value(foo)]",
                "#[value(name = \"x\")]",
                "#[value(rename_all = \"kebab\")]",
                "#[value(rename_all = \"KEBAB-CASE\")]",
                "#[value(rename_all = 3)]",
                "#[value(rename_all)]",
                "#[value(rename_all = \"lower\", rename_all = \"lower\")]",
                "#[value]",
                "#[value = \"x\"]",
                "#[value(rename_all = \"snake_case\")]\n#[value(rename_all = \"UPPER\")]",
                "#[value(rename_all = \"\")]",
                "#[value(rename_all = \"lowercase\")]",
                "#[value(rename_all = \"lower \")]",
                "#[value(rename_all_env = \"lower\")]",
            ],
        );
        m.edit.container.push((Item::V(v), t));
        Some(Item::V(v))
    }),
    ("a bad value attribute on a variant", By::Macro, |m| {
        let (v, k) = m.value()?;
        let named = m.spec.venums[v].variants[k].name.is_some();
        let t = if named && m.s.pct(50) {
            "#[value(name = \"zq-other\")]".to_string()
        } else {
            raw_attr(
                m.s,
                &[
                    "#[value(skip)]",
                    "#[value(help = \"x\")]",
                    "#[value(name = 'x')]",
                    "#[value(name)]",
                    "#[value]",
                    "#[value(rename_all = \"lower\")]",
                    "#[value(name = \"zq\", name = \"zq\")]",
                    "#[value(alias = \"x\")]",
                    "#[value(name = 3)]",
                    "#[value(Name = \"x\")]",
                    "#[value(name = zq)]",
                ],
            )
        };
        m.keep.push((Item::V(v), k));
        m.edit.vattrs.push((Item::V(v), k, t));
        Some(Item::V(v))
    }),
    ("a doc attribute that is no literal", By::Macro, |m| {
        let t = "#[doc = ::std::concat!(\"a\", \"b\")]";
        if m.s.pct(50) {
            let at = m.field(|_| true)?;
            m.raw(at, t)
        } else {
            m.container(t)
        }
    }),
    ("two kinds of default value", By::Macro, |m| {
        let at = m.arg(|a| a.dflt.is_some())?;
        let t = match m.a(at).dflt {
            Some(Dflt::Str(_)) => {
                raw_attr(m.s, &["default_value_t", "default_value_t = 3", "default_values_t"])
            }
            _ => "default_value = \"1\"".into(),
        };
        m.put(at, t)
    }),
    ("required with a default value", By::Macro, |m| {
        let at = m.arg(|a| a.dflt.is_some() && !a.required)?;
        m.put(at, "required = true")
    }),
    ("a delimiter on a single value", By::Macro, |m| {
        let at = m.arg(|a| !a.kind.multi() && a.delim.is_none())?;
        let t = raw_attr(
            m.s,
            &["value_delimiter = ','", "value_delimiter = ':'", "use_value_delimiter = true"],
        );
        m.put(at, t)
    }),
    ("both kinds of hyphen values", By::Macro, |m| {
        let at = m.arg(|a| a.named)?;
        let h = m.a(at).hyphen;
        if h != Hyphen::Any {
            m.put(at, "allow_hyphen_values = true");
        }
        if h != Hyphen::Num {
            m.put(at, "allow_negative_numbers = true");
        }
        m.hold(at)
    }),
    ("hyphen values where no value is taken from the next argument", By::Macro, |m| {
        let at = m.arg(|a| a.hyphen == Hyphen::No && (!a.kind.takes_value() || a.req_eq))?;
        let t = raw_attr(m.s, &["allow_hyphen_values = true", "allow_negative_numbers = true"]);
        m.put(at, t)
    }),
    ("require_equals added to hyphen values", By::Macro, |m| {
        let at = m.arg(|a| a.hyphen != Hyphen::No && !a.req_eq)?;
        m.put(at, "require_equals = true")
    }),
    ("an optional value without require_equals", By::Macro, |m| {
        let at = m.arg(|a| {
            a.named
                && (a.kind == Kind::OptOpt || !a.req_eq && a.kind == Kind::Opt && a.dflt.is_none())
        })?;
        m.a(at).kind = Kind::OptOpt;
        m.a(at).req_eq = false;
        m.a(at).hyphen = Hyphen::No;
        m.hold(at)
    }),
    ("last or trailing_var_arg on a named argument", By::Macro, |m| {
        let at = m.arg(|a| a.named)?;
        let t = raw_attr(m.s, &["last = true", "trailing_var_arg = true"]);
        m.put(at, t)
    }),
    ("a positional argument with attributes of named ones", By::Macro, |m| {
        let at = m.arg(|a| !a.named)?;
        let t = raw_attr(
            m.s,
            &[
                "require_equals = true",
                "global = true",
                "allow_hyphen_values = true",
                "allow_negative_numbers = true",
            ],
        );
        m.put(at, t)
    }),
    ("ignore_case on a positional argument", By::Macro, |m| {
        let at = m.arg(|a| !a.named && !a.ignore_case)?;
        m.put(at, "ignore_case = true")
    }),
    ("a positional with an optional value", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let t = raw_attr(
            m.s,
            &["zq: Option<Option<u8>>,", "#[arg(require_equals = true)] zq: Option<Option<u8>>,"],
        );
        m.add(st, t)
    }),
    ("last on a single value", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let t = raw_attr(m.s, &["Option<::std::string::String>", "u8", "::std::ffi::OsString"]);
        m.add(st, format!("#[arg(last = true)] zq: {t},"))
    }),
    ("two last arguments", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let has = m.spec.structs[st].args().any(|(_, a)| a.last);
        if !has || m.s.pct(20) {
            m.add(st, "#[arg(last = true)] zq1: Vec<u8>,");
        } else {
            let k = m.spec.structs[st].args().find(|(_, a)| a.last).unwrap().0;
            m.hold((st, k));
        }
        m.add(st, "#[arg(last = true)] zq2: Option<Vec<u8>>,")
    }),
    ("two variable-length positionals", By::Macro, |m| {
        let st = m.structs(|s| s.args().any(|(_, a)| !a.named && a.kind.multi() && !a.last))?;
        let k = m.spec.structs[st]
            .args()
            .find(|(_, a)| !a.named && a.kind.multi() && !a.last)
            .unwrap()
            .0;
        m.hold((st, k));
        let t = raw_attr(
            m.s,
            &[
                "zq: Vec<u8>,",
                "zq: Option<Vec<u8>>,",
                "#[arg(trailing_var_arg = true)] zq: Vec<u8>,",
            ],
        );
        m.add(st, t)
    }),
    ("a positional after a variable-length one", By::Macro, |m| {
        let st = m.structs(|s| s.args().any(|(_, a)| !a.named && a.kind.multi() && !a.last))?;
        let k = m.spec.structs[st]
            .args()
            .find(|(_, a)| !a.named && a.kind.multi() && !a.last)
            .unwrap()
            .0;
        m.hold((st, k));
        let n = m.spec.structs[st].fields.len();
        let p = m.s.range(k + 1, n);
        let t = raw_attr(
            m.s,
            &[
                "zq: u8,",
                "zq: Option<u8>,",
                "#[arg(required = true)] zq: Option<u8>,",
                "#[arg(default_value = \"1\")] zq: u8,",
            ],
        );
        m.edit.fields.push((st, p, t));
        Some(m.item(st))
    }),
    ("exclusive next to flatten", By::Macro, |m| {
        if let Some(at) = m.arg_in(|st, a| st.flats().next().is_some() && !a.exclusive)
            && m.s.pct(60)
        {
            let k = m.spec.structs[at.0].flats().next().unwrap().0;
            m.keep.push((Item::S(at.0), k));
            return m.put(at, "exclusive = true");
        }
        let at = m.arg(|_| true)?;
        if !m.a(at).exclusive {
            m.put(at, "exclusive = true");
        }
        m.hold(at);
        m.edit.extra +=
            "#[derive(::palc::Args)]\npub struct ZqFlat { #[arg(long)] zq_flat: bool }\n";
        m.add(at.0, "#[command(flatten)] zq: ZqFlat,")
    }),
    ("a reference to an unknown field", By::Macro, |m| {
        let at = m.arg(|_| true)?;
        let st = &m.spec.structs[at.0];
        let own: Vec<String> = st.fields.iter().map(|f| f.ident()).collect();
        let mut names: Vec<String> = vec!["zq_nope".into(), "Self".into(), "zq".into()];
        // Fields that are there, but are no arguments or elsewhere.
        names.extend(st.fields.iter().filter(|f| f.arg().is_none()).map(|f| f.ident()));
        let others: Vec<String> = m
            .spec
            .structs
            .iter()
            .flat_map(|s| s.fields.iter().map(|f| f.ident()))
            .filter(|n| !own.contains(n))
            .collect();
        names.extend(others);
        names.extend(
            st.args().map(|(_, a)| format!("{}_x", a.plain_ident())).filter(|n| !own.contains(n)),
        );
        names.extend(
            st.args()
                .filter_map(|(_, a)| a.long_name())
                .filter(|n| !own.iter().any(|o| o.trim_start_matches("r#") == n)),
        );
        let n = m.s.pick(&names).clone();
        let how = m.s.below(4);
        let t = match how {
            0 => format!("requires = {n:?}"),
            1 => format!("conflicts_with = {n:?}"),
            2 => format!("conflicts_with_all = [{n:?}]"),
            _ => format!("conflicts_with_all = [{:?}, {n:?}]", own[at.1]),
        };
        m.put(at, t)
    }),
    ("two subcommand fields", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        m.edit.extra += "#[derive(::palc::Subcommand)]\npub enum ZqSub { Zq }\n";
        match m.spec.structs[st].sub() {
            Some((k, ..)) => {
                m.keep.push((Item::S(st), k));
            }
            None => {
                m.add(st, "#[command(subcommand)] zq1: ZqSub,");
            }
        }
        let t = raw_attr(m.s, &["ZqSub", "Option<ZqSub>"]);
        m.add(st, format!("#[command(subcommand)] zq2: {t},"))
    }),
    ("too many fields", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let n = m.spec.structs[st].fields.len();
        m.keep.extend((0..n).map(|k| (Item::S(st), k)));
        let total = if m.s.pct(60) { 255 } else { m.s.range(255, 600) };
        for k in n..total {
            let p = m.s.below(n + 1);
            m.edit.fields.push((st, p, format!("#[arg(long)] zq_{k}: bool,")));
        }
        Some(m.item(st))
    }),
    ("generics", By::Macro, |m| {
        let (g, w) = *m.s.pick(&[
            ("<T: 'static>", ""),
            ("<'a>", ""),
            ("<const N: usize>", ""),
            ("<const N: usize = 0>", ""),
            ("<T = u8>", ""),
            ("", "where u8: Copy "),
        ]);
        let mut items: Vec<Item> =
            (0..m.spec.structs.len()).filter(|&i| !m.spec.structs[i].inline).map(Item::S).collect();
        items.extend((0..m.spec.enums.len()).map(Item::E));
        let it = m.choose(&items)?;
        m.edit.generics.push((it, g.into(), w.into()));
        Some(it)
    }),
    ("a shape that is no struct with named fields", By::Macro, |m| {
        let st = m.structs(|s| !s.inline)?;
        let n = m.spec.structs[st].name.clone();
        let t = match m.s.below(6) {
            0 => format!("pub struct {n}(u8);"),
            1 => format!("pub struct {n};"),
            2 => format!("pub struct {n}();"),
            3 => format!("pub enum {n} {{ A }}"),
            4 => format!("pub enum {n} {{}}"),
            _ => format!("pub union {n} {{ a: u8 }}"),
        };
        m.edit.shape.push((Item::S(st), t));
        Some(Item::S(st))
    }),
    ("a shape that is no enum of subcommands", By::Macro, |m| {
        let n = m.spec.enums.len();
        if n == 0 {
            return None;
        }
        let e = m.s.below(n);
        let n = m.spec.enums[e].name.clone();
        let t = match m.s.below(4) {
            0 => format!("pub struct {n} {{ #[arg(long)] x: bool }}"),
            1 => format!("pub struct {n};"),
            2 => format!("pub struct {n}(u8);"),
            _ => format!("pub union {n} {{ a: u8 }}"),
        };
        m.edit.shape.push((Item::E(e), t));
        Some(Item::E(e))
    }),
    ("a shape that is no enum of values", By::Macro, |m| {
        let v = m.venum()?;
        let n = m.spec.venums[v].name.clone();
        let t = match m.s.below(4) {
            0 => format!("pub struct {n} {{ a: u8 }}"),
            1 => format!("pub struct {n};"),
            2 => format!("pub struct {n}(u8);"),
            _ => format!("pub union {n} {{ a: u8 }}"),
        };
        m.edit.shape.push((Item::V(v), t));
        Some(Item::V(v))
    }),
    ("a tuple variant without a single element", By::Macro, |m| {
        let n = m.spec.enums.len();
        if n == 0 {
            return None;
        }
        let e = m.s.below(n);
        let p = m.s.below(m.spec.enums[e].variants.len() + 1);
        let t = raw_attr(m.s, &["Zq(ZqA, ZqA),", "Zq(),", "Zq(ZqA, ZqA, ZqA),"]);
        m.edit.extra += "#[derive(::palc::Args)]\npub struct ZqA { #[arg(long)] zq_flat: bool }\n";
        m.edit.variants.push((Item::E(e), p, t));
        Some(Item::E(e))
    }),
    ("a value variant with fields", By::Macro, |m| {
        let v = m.venum()?;
        let p = m.s.below(m.spec.venums[v].variants.len() + 1);
        let t = raw_attr(
            m.s,
            &["Zq(u8),", "Zq {},", "Zq(),", "Zq { a: u8 },", "#[value(name = \"zq\")] Zq(u8, u8),"],
        );
        m.edit.variants.push((Item::V(v), p, t));
        Some(Item::V(v))
    }),
    ("flattened positionals", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "zq_p: u8",
                "zq_p: Option<u8>",
                "zq_p: Vec<u8>",
                "#[arg(last = true)] zq_p: Vec<u8>",
                "#[arg(long)] zq_f: bool, zq_p: Option<::std::string::String>",
            ],
        );
        let _ = writeln!(m.edit.extra, "#[derive(::palc::Args)]\npub struct ZqFlat {{ {t} }}");
        if m.s.pct(30) {
            // One level further in.
            m.edit.extra += "#[derive(::palc::Args)]\npub struct ZqOuter { #[command(flatten)] zq_in: ZqFlat }\n";
            m.edit.shape.push((Item::S(usize::MAX), String::new()));
            return m.add(st, "#[command(flatten)] zq: ZqOuter,");
        }
        no_exclusive(m, st);
        m.add(st, "#[command(flatten)] zq: ZqFlat,")
    }),
    ("a flattened struct with a subcommand", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let t = raw_attr(m.s, &["ZqSub", "Option<ZqSub>"]);
        let _ = writeln!(
            m.edit.extra,
            "#[derive(::palc::Subcommand)]\npub enum ZqSub {{ Zq }}\n#[derive(::palc::Args)]\npub struct ZqFlat {{ #[command(subcommand)] zq_s: {t} }}"
        );
        no_exclusive(m, st);
        m.add(st, "#[command(flatten)] zq: ZqFlat,")
    }),
    ("ignore_case with upper case values", By::Macro, |m| {
        let st = m.structs(|_| true)?;
        let t = if m.s.pct(60) {
            // One among many.
            let n = m.s.range(1, 7);
            let at = m.s.below(n);
            let mut names: Vec<String> = (0..n)
                .map(|i| format!("{}{i}", raw_attr(m.s, &["a", "é", "-", "1", "z", "zz"])))
                .collect();
            let c = *m.s.pick(&['A', 'Z', 'M']);
            let mut w: Vec<char> = names[at].chars().collect();
            let p = m.s.below(w.len() + 1);
            w.insert(p, c);
            names[at] = w.into_iter().collect();
            let vs: Vec<String> = names
                .iter()
                .enumerate()
                .map(|(i, n)| format!("#[value(name = {n:?})] V{i}"))
                .collect();
            format!(";{}", vs.join(", "))
        } else {
            raw_attr(
                m.s,
                &[
                    "#[value(rename_all = \"UPPER\")] ; A",
                    ";#[value(name = \"aB\")] A",
                    ";B,#[value(name = \"éX\")] A",
                    "#[value(rename_all = \"PascalCase\")] ; One, Two",
                ],
            )
        };
        let (a, b) = t.split_once(';').unwrap();
        let _ = writeln!(m.edit.extra, "#[derive(::palc::ValueEnum)]\n{a}\npub enum ZqV {{ {b} }}");
        let k = raw_attr(m.s, &["ZqV", "Option<ZqV>", "Vec<ZqV>", "Option<Vec<ZqV>>"]);
        m.add(st, format!("#[arg(long, ignore_case = true)] zq: {k},"))
    }),
    ("ignore_case on another type", By::Any, |m| {
        let at = m.arg(|a| a.named && !matches!(a.ty, Ty::Venum(_)) && a.kind.takes_value())?;
        m.put(at, "ignore_case = true")
    }),
    ("an unparsable type", By::Any, |m| {
        let st = m.structs(|_| true)?;
        let t = *m.s.pick(&[
            "ZqT",
            "()",
            "(u8, u8)",
            "[u8; 2]",
            "&'static ::std::ffi::OsStr",
            "fn()",
            "::std::boxed::Box<u8>",
            "::std::collections::BTreeMap<u8, u8>",
            "ZqErr",
            "Vec<u8>",
            "::std::time::Duration",
            "ZqArgs",
        ]);
        m.edit.extra += "pub struct ZqT;\npub struct ZqBad;\npub struct ZqErr;\nimpl ::std::str::FromStr for ZqErr { type Err = ZqBad; fn from_str(_: &str) -> Result<Self, ZqBad> { Ok(ZqErr) } }\n#[derive(::palc::Args)]\npub struct ZqArgs { #[arg(long)] a: bool }\n";
        let k = *m.s.pick(&["$", "Option<$>", "Vec<$>", "Option<Vec<$>>"]);
        if t == "Vec<u8>" && !k.contains("Vec") {
            return None;
        }
        let t = k.replace('$', t);
        let s = &m.spec.structs[st];
        let positional = m.s.pct(30) && !s.args().any(|(_, a)| !a.named && a.kind.multi());
        m.add(st, if positional { format!("zq: {t},") } else { format!("#[arg(long)] zq: {t},") })
    }),
    ("a default value of another type", By::Any, |m| {
        let st = m.structs(|_| true)?;
        let t = raw_attr(
            m.s,
            &[
                "default_value_t = \"x\")] zq: u8",
                "default_value_t = 1u16)] zq: u8",
                "default_value_t = ())] zq: u8",
                "default_value_t = zq_nowhere)] zq: u8",
                "default_value_t)] zq: ::std::num::NonZeroU8",
                "default_value_t = 1)] zq: ::std::string::String",
            ],
        );
        m.add(st, format!("#[arg(long, {t},"))
    }),
    ("a default value that cannot be shown", By::Any, |m| {
        let st = m.structs(|_| true)?;
        m.edit.extra += "#[derive(Default)] pub struct ZqT;\nimpl ::std::str::FromStr for ZqT { type Err = ::std::string::String; fn from_str(_: &str) -> Result<Self, ::std::string::String> { Ok(ZqT) } }\n";
        let t = raw_attr(
            m.s,
            &[
                "default_value_t",
                "default_value_t = ZqT",
                "default_value_t = ::std::default::Default::default()",
            ],
        );
        m.add(st, format!("#[arg(long, {t})] zq: ZqT,"))
    }),
    ("a subcommand field of another type", By::Any, |m| {
        let st = m.structs(|s| s.sub().is_none())?;
        let t = *m.s.pick(&[
            "ZqArgs",
            "u8",
            "Vec<ZqSub>",
            "Option<Option<ZqSub>>",
            "ZqPlain",
            "::std::boxed::Box<ZqSub>",
        ]);
        m.edit.extra += "pub enum ZqPlain { A }\n#[derive(::palc::Subcommand)]\npub enum ZqSub { Zq }\n#[derive(::palc::Args)]\npub struct ZqArgs { #[arg(long)] a: bool }\n";
        m.add(st, format!("#[command(subcommand)] zq: {t},"))
    }),
    ("a flattened field of another type", By::Any, |m| {
        let st = m.structs(|_| true)?;
        no_exclusive(m, st);
        let t = *m.s.pick(&[
            "ZqSub",
            "u8",
            "Vec<ZqArgs>",
            "Option<ZqArgs>",
            "ZqPlain",
            "::std::boxed::Box<ZqArgs>",
            "(ZqArgs,)",
        ]);
        m.edit.extra += "pub struct ZqPlain { a: u8 }\n#[derive(::palc::Subcommand)]\npub enum ZqSub { Zq }\n#[derive(::palc::Args)]\npub struct ZqArgs { #[arg(long)] a: bool }\n";
        m.add(st, format!("#[command(flatten)] zq: {t},"))
    }),
    ("a newtype variant of another type", By::Any, |m| {
        let n = m.spec.enums.len();
        if n == 0 {
            return None;
        }
        let e = m.s.below(n);
        let p = m.s.below(m.spec.enums[e].variants.len() + 1);
        let t =
            *m.s.pick(&["u8", "ZqPlain", "Option<ZqArgs>", "ZqSub", "::std::boxed::Box<ZqArgs>"]);
        m.edit.extra += "pub struct ZqPlain { a: u8 }\n#[derive(::palc::Subcommand)]\npub enum ZqSub { Zq }\n#[derive(::palc::Args)]\npub struct ZqArgs { #[arg(long)] a: bool }\n";
        m.edit.variants.push((Item::E(e), p, format!("Zq({t}),")));
        Some(Item::E(e))
    }),
    ("a struct flattened into itself", By::Any, |m| {
        let st = m.structs(|s| !s.inline)?;
        no_exclusive(m, st);
        let n = m.spec.structs[st].name.clone();
        m.add(st, format!("#[command(flatten)] zq: {n},"))
    }),
    ("both Args and Parser", By::Any, |m| {
        let st = m.structs(|s| !s.inline)?;
        let d = if st == 0 { "Args" } else { "Parser" };
        m.edit.derives.push((Item::S(st), format!("#[derive(::palc::{d})]")));
        Some(Item::S(st))
    }),
    ("a help text that cannot be shown", By::Any, |m| {
        let t = raw_attr(
            m.s,
            &[
                "long_about = ()",
                "after_long_help = &[1]",
                "after_long_help = None::<u8>",
                "long_about = zq_nowhere",
            ],
        );
        let key = t.split(' ').next().unwrap().to_string();
        for st in &mut m.spec.structs {
            if key == "long_about" { st.long_about = None } else { st.after = None }
        }
        for v in m.spec.enums.iter_mut().flat_map(|e| &mut e.variants) {
            if key != "long_about" {
                v.after = None;
            }
        }
        m.container(format!("#[command({t})]"))
    }),
];

/// `exclusive` next to `flatten` would be another mistake.
fn no_exclusive(m: &mut M, st: usize) {
    for f in &mut m.spec.structs[st].fields {
        if let Field::Arg(a) = f {
            a.exclusive = false;
        }
    }
}

pub fn rules() -> usize {
    RULES.len()
}

/// One mutant by one rule, if the rule can be broken in this definition.
pub fn mutant(spec: &Spec, rule: usize, s: &mut Src) -> Option<Mutant> {
    let mut m = M { spec: spec.clone(), edit: Edit::default(), keep: vec![], s };
    let (name, by, f) = RULES[rule];
    let mut item = f(&mut m)?;
    // The struct of `extra` that is wrong, rather than one of the definition.
    let mut edit = std::mem::take(&mut m.edit);
    if edit.shape.iter().any(|x| x.0 == Item::S(usize::MAX)) {
        edit.shape.clear();
        item = Item::S(usize::MAX);
    }
    let spec = m.spec;
    let keep = m.keep;
    Some(Mutant { rule: name, by, item, spec, edit, keep })
}

/// The source, and the lines (from 1, inclusive) of `item`.
pub fn source(spec: &Spec, edit: &Edit, item: Option<Item>) -> (String, usize, usize) {
    let mut e = Emit::bare();
    e.edit = Some(edit.clone());
    let mut o = String::new();
    let mut range = (0, 0);
    e.cust(&mut o, spec);
    let mut all: Vec<Item> = (0..spec.venums.len()).map(Item::V).collect();
    all.extend((0..spec.structs.len()).filter(|&i| !spec.structs[i].inline).map(Item::S));
    all.extend((0..spec.enums.len()).map(Item::E));
    all.push(Item::S(usize::MAX));
    for it in all {
        let from = o.lines().count() + 1;
        match it {
            Item::S(usize::MAX) => o.push_str(&edit.extra),
            Item::S(i) => e.strukt(&mut o, spec, i),
            Item::E(i) => e.sub_enum(&mut o, spec, i),
            Item::V(i) => e.venum(&mut o, spec, i),
        }
        if Some(it) == item {
            range = (from, o.lines().count());
        }
    }
    (o, range.0, range.1)
}

/// What shrinking may leave out.
pub fn removable(m: &Mutant) -> Vec<(Item, usize)> {
    let mut v = vec![];
    for (i, e) in m.spec.enums.iter().enumerate() {
        v.extend((0..e.variants.len()).map(|k| (Item::E(i), k)));
    }
    for (i, s) in m.spec.structs.iter().enumerate() {
        v.extend((0..s.fields.len()).map(|k| (Item::S(i), k)));
    }
    for (i, e) in m.spec.venums.iter().enumerate() {
        v.extend((1..e.variants.len()).map(|k| (Item::V(i), k)));
    }
    v.retain(|x| !m.keep.contains(x));
    v
}

pub struct Made {
    pub spec: Spec,
    pub mutants: Vec<(Mutant, usize)>,
}

pub fn unit(seed: u64, i: usize, rounds: usize) -> Made {
    let knobs = crate::checks::k_mixed(i);
    let words = draw(seed, "C17", i, 100, 4000);
    let spec = Gen::new(&mut Src::new(&words), knobs).generate();
    let mut mutants = vec![];
    for r in 0..rules() {
        for k in 0..rounds {
            let words = draw(seed, "C17", i, (1000 + r * 50 + k) as u64, 60);
            let mut s = Src::new(&words);
            let wrap = [0, 0, 0, 1, 2][s.below(5)];
            mutants.extend(mutant(&spec, r, &mut s).map(|m| (m, wrap)));
        }
    }
    Made { spec, mutants }
}

/// A mutant, with some parts left out, as JSON.
fn json(m: &Mutant, wrap: usize, skip: &[usize]) -> String {
    let all = removable(m);
    let mut edit = m.edit.clone();
    edit.skip = skip.iter().filter_map(|&k| all.get(k)).copied().collect();
    let (src, first, last) = source(&m.spec, &edit, Some(m.item));
    format!(
        "{{\"rule\": {}, \"macro\": {}, \"wrap\": {wrap}, \"parts\": {}, \"first\": {first}, \"last\": {last}, \"src\": {}}}",
        js(m.rule),
        m.by == By::Macro,
        all.len(),
        js(&src)
    )
}

/// Everything to compile, as JSON; or one mutant made smaller.
pub fn print(seed: u64, thorough: bool, only: Option<(usize, usize, Vec<usize>)>) -> String {
    let (n, rounds) = if thorough { (400, 3) } else { (48, 1) };
    if let Some((i, k, skip)) = only {
        let u = unit(seed, i, rounds);
        let (m, wrap) = &u.mutants[k];
        return json(m, *wrap, &skip);
    }
    let units: Vec<String> = (0..n)
        .map(|i| {
            let u = unit(seed, i, rounds);
            let ms: Vec<String> = u.mutants.iter().map(|(m, w)| json(m, *w, &[])).collect();
            let twin = source(&u.spec, &Edit::default(), None).0;
            format!("{{\"twin\": {}, \"mutants\": [\n{}\n]}}", js(&twin), ms.join(",\n"))
        })
        .collect();
    let soups: Vec<String> = (0..if thorough { 20000 } else { 1500 })
        .map(|i| js(&soup(&mut Src::new(&draw(seed, "C17 soup", i, 0, 400)))))
        .collect();
    format!("{{\"units\": [\n{}\n], \"soups\": [\n{}\n]}}\n", units.join(",\n"), soups.join(",\n"))
}

// Token soup.

const WORDS: &[&str] = &[
    "long",
    "short",
    "alias",
    "aliases",
    "short_alias",
    "short_aliases",
    "value_name",
    "require_equals",
    "global",
    "allow_hyphen_values",
    "allow_negative_numbers",
    "trailing_var_arg",
    "last",
    "default_value",
    "default_value_t",
    "default_values_t",
    "value_delimiter",
    "use_value_delimiter",
    "value_enum",
    "ignore_case",
    "hide",
    "required",
    "exclusive",
    "requires",
    "conflicts_with",
    "conflicts_with_all",
    "help",
    "long_help",
    "name",
    "version",
    "long_about",
    "after_long_help",
    "term_width",
    "max_term_width",
    "flatten",
    "subcommand",
    "rename_all",
    "skip",
    "env",
    "arg",
    "command",
    "value",
    "about",
    "author",
    "verbatim_doc_comment",
    "num_args",
    "raw",
    "id",
    "self",
    "Self",
    "r#type",
    "type",
    "crate",
    "a",
    "b",
    "zz",
    "__",
    "_",
    "true",
    "false",
    "None",
    "fn",
    "impl",
    "const",
    "unsafe",
    "dyn",
    "async",
    "x",
    "union",
    "auto",
    "macro_rules",
];
const LITS: &[&str] = &[
    "\"\"",
    "\"a\"",
    "\"b\"",
    "\"-\"",
    "\"--x\"",
    "\"a=b\"",
    "\"\\n\"",
    "\"\\u{0}\"",
    "\"é\"",
    "\"名前\"",
    "\"zz\"",
    "\"a b\"",
    "r\"a\"",
    "r#\"a\"b\"#",
    "b\"a\"",
    "b\"\\xff\"",
    "c\"a\"",
    "'a'",
    "'b'",
    "'-'",
    "'='",
    "','",
    "'\\0'",
    "'é'",
    "'\\u{10ffff}'",
    "'\\''",
    "b'a'",
    "0",
    "1",
    "1u8",
    "0x_f",
    "1.5",
    "1e10f32",
    "340282366920938463463374607431768211455",
    "99999999999999999999999999999999999999999999",
    "\"kebab-case\"",
    "\"lower\"",
    "\"UPPER\"",
    "'static",
    "'a",
    "\"r#type\"",
    "\"type\"",
    "\"self\"",
    "\"fn\"",
    "\"_\"",
    "\"1\"",
    "\"a::b\"",
    "\"é\\u{301}\"",
    "1_000usize",
    "\"\\\n   x\"",
    "'\"'",
    "\"'\"",
    "\"{}\"",
    "\"{a}\"",
    "\"%\"",
    "\"\u{1f600}\"",
];
const PUNCT: &[&str] = &[
    ",", ",", ",", "=", "=", "=", "=", ";", ":", "::", ".", "..", "..=", "-", "+", "*", "/", "&",
    "&&", "|", "||", "!", "?", "#", "@", "$", "<", ">", "->", "=>", "==", "<=", "^", "%", "~",
];
const BAD_TYPES: usize = 4;
const TYPES: &[&str] = &[
    "bool",
    "u8",
    "String",
    "Option<u8>",
    "Vec<u8>",
    "Option<Vec<u8>>",
    "Option<Option<u8>>",
    "Option<bool>",
    "Vec<bool>",
    "Vec<Vec<u8>>",
    "()",
    "(u8,)",
    "[u8; 3]",
    "[u8]",
    "&'static str",
    "&str",
    "*const u8",
    "fn(u8) -> u8",
    "Box<dyn Fn()>",
    "dyn Send",
    "impl Send",
    "_",
    "!",
    "<u8 as Into<u8>>::X",
    "std::option::Option<u8>",
    "::std::vec::Vec<u8>",
    "Option",
    "Vec",
    "Option<>",
    "Vec<>",
    "Option<'a>",
    "Option<u8, u8>",
    "Vec<u8, A>",
    "Option<Vec>",
    "vec![u8]",
    "concat!(u8)",
    "Self",
    "Option::<u8>",
    "(Option<u8>)",
    "Option<Option<Option<u8>>>",
    "Option<Option<Vec<u8>>>",
    "Vec<Option<u8>>",
    "for<'a> fn(&'a u8)",
    "[u8; { 1 + 1 }]",
    "T",
    "r#type",
    "Vec<{ 3 }>",
    "Option<'static u8>",
    "Option(u8)",
    "Fn(u8) -> u8",
    "Option<dyn Fn(u8) -> Option<u8>>",
    "core::option::Option<alloc::vec::Vec<u8>>",
    "::Option<u8>",
    "crate::Option<u8>",
    "unsafe extern \"C\" fn()",
    "bool<u8>",
    "Option<impl Send + 'a>",
    // These do not parse.
    "Option<u8>>",
    "?Sized",
    "u8 + Send",
    "",
];

fn tokens(s: &mut Src, max: usize, depth: usize) -> String {
    let n = s.below(max + 1);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(12) {
            0..=3 => o.push_str(s.pick(WORDS)),
            4..=6 => o.push_str(s.pick(LITS)),
            7..=9 => o.push_str(s.pick(PUNCT)),
            // The usual form.
            10 => {
                let _ = write!(o, "{} = {}, ", s.pick(WORDS), s.pick(LITS));
            }
            _ if depth < 3 => {
                let (a, b) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
                let t = tokens(s, 4, depth + 1);
                o = format!("{o}{a}{t}{b}");
            }
            _ => o.push_str(s.pick(LITS)),
        }
        o.push(' ');
    }
    o
}

fn attr(s: &mut Src) -> String {
    let path = match s.below(10) {
        0..=4 => "arg",
        5..=6 => "command",
        7..=8 => "value",
        _ => *s.pick(&["doc", "doc", "allow", "r#arg", "cfg", "deprecated", "must_use"]),
    };
    match s.below(16) {
        0 => format!("#[{path}]"),
        1 => format!("#[{path} = {}]", s.pick(LITS)),
        2 => format!("#[{path} [ {} ]]", tokens(s, 5, 0)),
        3 => format!("#[{path} {{ {} }}]", tokens(s, 5, 0)),
        4 => "/// Some text.".into(),
        5..=8 => {
            let n = s.range(1, 4);
            let ts: Vec<String> = (0..n)
                .map(|_| match s.below(5) {
                    0 => s.pick(WORDS).to_string(),
                    1 => format!("{} = [{}, {}]", s.pick(WORDS), s.pick(LITS), s.pick(LITS)),
                    2 => format!("{}({})", s.pick(WORDS), tokens(s, 3, 1)),
                    _ => format!("{} = {}", s.pick(WORDS), s.pick(LITS)),
                })
                .collect();
            format!("#[{path}({})]", ts.join(", "))
        }
        _ => format!("#[{path}({})]", tokens(s, 8, 0)),
    }
}

fn attrs(s: &mut Src, o: &mut String) {
    for _ in 0..s.below(3) {
        o.push_str(&attr(s));
        o.push('\n');
    }
}

/// One of the pool; the last `wild` of it need not even parse.
fn some<'a>(s: &mut Src, pool: &[&'a str], wild: usize, is_wild: bool) -> &'a str {
    let n = if is_wild { pool.len() } else { pool.len() - wild };
    pool[s.below(n)]
}

fn fields(s: &mut Src, named: bool, wild: bool) -> String {
    let mut o = String::new();
    for _ in 0..s.below(5) {
        attrs(s, &mut o);
        let vis = some(s, &["", "", "", "pub ", "pub(crate) ", "pub(in self) ", "crate "], 1, wild);
        let name = some(
            s,
            &[
                "a", "b", "a_b", "r#type", "_a", "__x", "é", "A", "r#fn", "a1", "名前", "_",
                "self", "type",
            ],
            3,
            wild,
        );
        let mut ty = some(s, TYPES, BAD_TYPES, wild).to_string();
        if wild && s.pct(12) {
            ty = tokens(s, 5, 0);
        }
        let default = if wild && s.pct(5) { " = 3" } else { "" };
        let end = if wild && s.pct(5) { *s.pick(&["", ";", ",,"]) } else { "," };
        if named {
            let _ = writeln!(o, "{vis}{name}: {ty}{default}{end}");
        } else {
            let _ = writeln!(o, "{vis}{ty}{end}");
        }
    }
    o
}

/// An item of any kind, with any derive, with any tokens in its attributes.
pub fn soup(s: &mut Src) -> String {
    let derive = *s.pick(&[
        "Parser",
        "Args",
        "Subcommand",
        "ValueEnum",
        "Parser, Args",
        "Args, Subcommand, ValueEnum",
    ]);
    let list: Vec<String> = derive.split(", ").map(|d| format!("::palc::{d}")).collect();
    let mut o = String::new();
    let wild = s.pct(20);
    if wild && s.pct(30) {
        attrs(s, &mut o);
    }
    let _ = writeln!(o, "#[derive({})]", list.join(", "));
    attrs(s, &mut o);
    let generics = match s.below(8) {
        0 => *s.pick(&[
            "<T>",
            "<'a>",
            "<const N: usize>",
            "<>",
            "<T: Fn() -> u8 = fn() -> u8>",
            "<const N: bool = { 1 < 2 }>",
            "<#[x] T>",
            "<'a: 'static, T: ?Sized + 'a>",
        ]),
        _ => "",
    };
    let wher = if s.pct(6) {
        *s.pick(&[
            " where u8: Copy",
            " where",
            " where for<'a> &'a T: Copy,",
            " where [(); { 3 }]: Sized",
        ])
    } else {
        ""
    };
    let enumish = derive.contains("Subcommand") || derive.contains("ValueEnum");
    let vis = *s.pick(&["", "pub ", "pub(crate) "]);
    if s.pct(if enumish { 85 } else { 8 }) {
        let mut vs = String::new();
        for _ in 0..s.below(5) {
            attrs(s, &mut vs);
            let name = some(
                s,
                &[
                    "A", "B", "FooBar", "r#type", "_A", "__", "É", "a", "R2d2", "名前", "Foo_",
                    "Self", "_", "r#Self",
                ],
                3,
                wild,
            );
            match s.below(if derive.contains("ValueEnum") { 12 } else { 5 }) {
                0 => {
                    let f = fields(s, true, wild);
                    let _ = write!(vs, "{name} {{ {f} }}");
                }
                1 => {
                    let f = fields(s, false, wild);
                    let _ = write!(vs, "{name}({f})");
                }
                2 => {
                    let _ = write!(vs, "{name}({})", some(s, TYPES, BAD_TYPES, wild));
                }
                3 if wild => {
                    let _ = write!(vs, "{name} = {}", tokens(s, 3, 1));
                }
                _ => vs.push_str(name),
            }
            vs.push_str(",\n");
        }
        let _ = writeln!(o, "{vis}enum X{generics}{wher} {{\n{vs}}}");
    } else {
        match s.below(14) {
            0 => {
                let _ = writeln!(o, "{vis}struct X{generics}{wher};");
            }
            1 => {
                let f = fields(s, false, wild);
                let _ = writeln!(o, "{vis}struct X{generics}({f}){wher};");
            }
            2 => {
                let f = fields(s, true, wild);
                let _ = writeln!(o, "{vis}union X{generics}{wher} {{ {f} }}");
            }
            _ => {
                let f = fields(s, true, wild);
                let _ = writeln!(o, "{vis}struct X{generics}{wher} {{\n{f}}}");
            }
        }
    }
    o
}
