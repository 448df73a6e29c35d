//! The reference: an interpreter of a definition, written from the documentation.
use crate::spec::*;
use crate::types::*;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK {
    NoArgv0,
    UnknownNamed,
    UnknownSub,
    Dup,
    Extra,
    InlineValue,
    MissingValue,
    Invalid,
    MissingEq,
    Required,
    RequiredSub,
    Requires,
    Exclusive,
    Conflict,
}

/// One acceptable error.
#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub kind: EK,
    pub desc: Option<String>,
    /// Acceptable renderings of the offending input.
    pub input: Vec<Vec<u8>>,
    pub source: Option<String>,
    pub possible: Option<String>,
}

impl E {
    fn new(kind: EK) -> E {
        E { kind, desc: None, input: vec![], source: None, possible: None }
    }
    fn input(mut self, b: &[u8]) -> E {
        self.input.push(b.to_vec());
        self
    }
    fn desc(mut self, a: &Arg) -> E {
        self.desc = Some(a.desc());
        self
    }
    /// The full texts this error may have.
    pub fn texts(&self) -> Vec<String> {
        let d = self.desc.as_deref().unwrap_or("?");
        let inputs: Vec<&[u8]> = if self.input.is_empty() {
            vec![b""]
        } else {
            self.input.iter().map(|v| &v[..]).collect()
        };
        inputs
            .into_iter()
            .map(|i| {
                let i = OsStr::from_bytes(i);
                let mut s = match self.kind {
                    EK::NoArgv0 => "missing executable argument (argv[0])".to_string(),
                    EK::UnknownNamed | EK::Extra => format!("unexpected argument {i:?}"),
                    EK::UnknownSub => format!("unrecognized subcommand {i:?}"),
                    EK::Dup => format!("the argument '{d}' cannot be used multiple times"),
                    EK::InlineValue => format!("unexpected value {i:?} for '{d}'"),
                    EK::MissingValue => {
                        format!("a value is required for '{d}' but none was supplied")
                    }
                    EK::Invalid => format!("invalid value {i:?} for '{d}'"),
                    EK::MissingEq => {
                        format!("equal sign is needed when assigning values for '{d}'")
                    }
                    EK::Required => format!("the argument '{d}' is required but not provided"),
                    EK::RequiredSub => "the subcommand is required but not provided".to_string(),
                    EK::Requires => format!(
                        "the argument '{d}' is required because some dependency arguments are provided"
                    ),
                    EK::Exclusive => format!(
                        "the argument '{d}' cannot be used with one or more of the other specified arguments"
                    ),
                    EK::Conflict => {
                        format!("the argument '{d}' cannot be used with some other arguments")
                    }
                };
                if let Some(src) = &self.source {
                    s += ": ";
                    s += src;
                }
                if let Some(p) = &self.possible {
                    s += "\n  ";
                    s += p;
                }
                s
            })
            .collect()
    }
}

/// The kind of a real error, by its message.
pub fn classify(msg: &str) -> Option<EK> {
    let m = msg;
    Some(if m.starts_with("missing executable argument") {
        EK::NoArgv0
    } else if m.starts_with("unexpected argument ") {
        EK::UnknownNamed
    } else if m.starts_with("unrecognized subcommand ") {
        EK::UnknownSub
    } else if m.starts_with("unexpected value ") {
        EK::InlineValue
    } else if m.starts_with("a value is required for ") {
        EK::MissingValue
    } else if m.starts_with("invalid value ") {
        EK::Invalid
    } else if m.starts_with("equal sign is needed ") {
        EK::MissingEq
    } else if m.starts_with("the subcommand is required ") {
        EK::RequiredSub
    } else if m.ends_with("cannot be used multiple times") {
        EK::Dup
    } else if m.ends_with("is required but not provided") {
        EK::Required
    } else if m.ends_with("is required because some dependency arguments are provided") {
        EK::Requires
    } else if m.ends_with("cannot be used with one or more of the other specified arguments") {
        EK::Exclusive
    } else if m.ends_with("cannot be used with some other arguments") {
        EK::Conflict
    } else {
        return None;
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Val),
    /// Any of these is right.
    Err(Vec<E>),
    /// Help for this chain of struct indices (None: a unit variant) and the command path.
    Help {
        st: Option<usize>,
        unit: Option<(usize, usize)>,
        path: Vec<String>,
    },
}

// What happened, for telling interesting cases from boring ones.
pub const EV_NAMES: [&str; 40] = [
    "flag",
    "short",
    "bundle",
    "attached",
    "eq_long",
    "eq_short",
    "separate",
    "hyphen_taken",
    "hyphen_refused",
    "dashdash",
    "last",
    "greedy",
    "positional",
    "sub",
    "sub_deep",
    "global",
    "flat",
    "alias",
    "dup_err",
    "delim",
    "default_used",
    "default_unused",
    "constraint_err",
    "required_err",
    "non_utf8",
    "help",
    "optval_none",
    "optval_some",
    "multi_2plus",
    "invalid",
    "unknown",
    "extra",
    "missing_value",
    "missing_eq",
    "inline_value_err",
    "num_hyphen",
    "sub_name_as_value",
    "ignore_case",
    "shadowed",
    "constraint_ok",
];
macro_rules! evs { ($($n:ident = $i:expr),* $(,)?) => { $(pub const $n: u64 = 1 << $i;)* } }
evs! {
    FLAG = 0, SHORT = 1, BUNDLE = 2, ATTACHED = 3, EQ_LONG = 4, EQ_SHORT = 5, SEPARATE = 6,
    HYPHEN_TAKEN = 7, HYPHEN_REFUSED = 8, DASHDASH = 9, LAST = 10, GREEDY = 11, POSITIONAL = 12,
    SUB = 13, SUB_DEEP = 14, GLOBAL = 15, FLAT = 16, ALIAS = 17, DUP_ERR = 18, DELIM = 19,
    DEFAULT_USED = 20, DEFAULT_UNUSED = 21, CONSTRAINT_ERR = 22, REQUIRED_ERR = 23, NON_UTF8 = 24,
    HELP = 25, OPTVAL_NONE = 26, OPTVAL_SOME = 27, MULTI = 28, INVALID = 29, UNKNOWN = 30,
    EXTRA = 31, MISSING_VALUE = 32, MISSING_EQ = 33, INLINE_ERR = 34, NUM_HYPHEN = 35,
    SUB_AS_VALUE = 36, IGNORE_CASE = 37, SHADOWED = 38, CONSTRAINT_OK = 39,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Slot {
    Unset,
    Flag,
    One(Val),
    OptVal(Option<Val>),
    Many(Vec<Val>),
}

impl Slot {
    pub fn is_set(&self) -> bool {
        *self != Slot::Unset
    }
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub st: Option<usize>,
    pub slots: Vec<Slot>,
    pub flats: Vec<(usize, Inst)>,
    /// The chosen subcommand: (enum, variant, index of the level).
    pub sub: Option<(usize, usize, usize)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Bare,
    EqLong,
    Sep,
    Attached,
    EqShort,
}

/// A recognized occurrence of a named argument.
#[derive(Clone, Debug)]
pub struct Occ {
    pub tok: usize,
    pub level: usize,
    pub st: usize,
    pub field: usize,
    /// The level and path that declare it.
    pub owner: (usize, Vec<usize>),
    pub short: Option<char>,
    pub form: Form,
    pub value: Option<Vec<u8>>,
    /// Byte position of the short name in its token, 0 for long names.
    pub at: usize,
}

#[derive(Default, Debug, Clone)]
pub struct Trace {
    pub ev: u64,
    pub occs: Vec<Occ>,
    /// Tokens that are positionals before any `--`: (token, level, field).
    pub pos: Vec<(usize, usize, usize)>,
    /// Tokens that selected a subcommand.
    pub subs: Vec<usize>,
    pub dashdash: Option<usize>,
    /// The token at which a parse error occurred.
    pub err_at: Option<usize>,
    /// Tokens consumed by a trailing or last argument begin here.
    pub greedy_from: Option<usize>,
    /// A subcommand was entered after a value of a variable-length positional.
    pub list_then_sub: bool,
}

pub struct Model<'a> {
    pub spec: &'a Spec,
    pub help: bool,
}

pub enum Nm<'n> {
    Long(&'n [u8]),
    Short(char),
}

impl<'a> Model<'a> {
    pub fn inst(&self, st: usize) -> Inst {
        let s = &self.spec.structs[st];
        Inst {
            st: Some(st),
            slots: vec![Slot::Unset; s.fields.len()],
            flats: s.flats().map(|(f, t)| (f, self.inst(t))).collect(),
            sub: None,
        }
    }

    pub fn unit_inst() -> Inst {
        Inst { st: None, slots: vec![], flats: vec![], sub: None }
    }

    fn matches(a: &Arg, n: &Nm) -> bool {
        a.named
            && match n {
                Nm::Long(b) => a.longs().iter().any(|l| l.as_bytes() == *b),
                Nm::Short(c) => a.shorts().contains(c),
            }
    }

    fn find(&self, inst: &Inst, n: &Nm, global: bool, path: &mut Vec<usize>) -> Option<usize> {
        let st = inst.st?;
        for (i, a) in self.spec.structs[st].args() {
            if (!global || a.global) && Self::matches(a, n) {
                return Some(i);
            }
        }
        for (k, (_, f)) in inst.flats.iter().enumerate() {
            path.push(k);
            if let Some(i) = self.find(f, n, global, path) {
                return Some(i);
            }
            path.pop();
        }
        None
    }

    /// Whether some level declares this name at all (even if out of reach).
    pub fn lookup(
        &self,
        levels: &[Inst],
        n: &Nm,
        ev: &mut u64,
    ) -> Option<(usize, Vec<usize>, usize)> {
        let last = levels.len() - 1;
        for (li, l) in levels.iter().enumerate().rev() {
            let mut path = vec![];
            if let Some(i) = self.find(l, n, li != last, &mut path) {
                if li != last {
                    *ev |= GLOBAL;
                } else if levels[..last]
                    .iter()
                    .any(|l| self.find(l, n, true, &mut vec![]).is_some())
                {
                    *ev |= SHADOWED;
                }
                if !path.is_empty() {
                    *ev |= FLAT;
                }
                return Some((li, path, i));
            }
        }
        None
    }

    fn at<'i>(inst: &'i mut Inst, path: &[usize]) -> &'i mut Inst {
        match path {
            [] => inst,
            [k, rest @ ..] => Self::at(&mut inst.flats[*k].1, rest),
        }
    }

    pub fn run(&self, argv: &[OsString]) -> (Res, Trace) {
        let mut t = Trace::default();
        let r = self.run_in(argv, &mut t);
        (r, t)
    }

    fn run_in(&self, argv: &[OsString], t: &mut Trace) -> Res {
        if argv.is_empty() {
            return Res::Err(vec![E::new(EK::NoArgv0)]);
        }
        let name0 = match std::path::Path::new(&argv[0]).file_name() {
            Some(n) => n.to_string_lossy().into_owned(),
            None => argv[0].to_string_lossy().into_owned(),
        };
        let mut levels = vec![self.inst(0)];
        let mut units: Vec<Option<(usize, usize)>> = vec![None];
        let mut path = vec![name0];
        let mut cursor = 0usize;
        let mut i = 1;
        while i < argv.len() {
            let tok = argv[i].as_bytes();
            let li = levels.len() - 1;
            let cur = i;
            i += 1;
            if argv[cur].to_str().is_none() {
                t.ev |= NON_UTF8;
            }
            if tok == b"--" {
                t.ev |= DASHDASH;
                t.dashdash = Some(cur);
                if let Some(st) = levels[li].st {
                    let ps = self.spec.structs[st].positionals();
                    if let Some(&f) = ps.last()
                        && self.arg(st, f).last
                    {
                        cursor = ps.len() - 1;
                    }
                }
                while i < argv.len() {
                    let at = i;
                    i += 1;
                    if let Err(e) =
                        self.positional(&mut levels, &mut cursor, argv, at, &mut i, true, t)
                    {
                        return Res::Err(vec![e]);
                    }
                }
                break;
            } else if let Some(body) = tok.strip_prefix(b"--") {
                let (name, val) = match body.iter().position(|&b| b == b'=') {
                    Some(p) => (&body[..p], Some(&body[p + 1..])),
                    None => (body, None),
                };
                let Some(found) = self.lookup(&levels, &Nm::Long(name), &mut t.ev) else {
                    if self.help && name == b"help" {
                        t.ev |= HELP;
                        return self.help_res(&levels, &units, path);
                    }
                    t.ev |= UNKNOWN;
                    t.err_at = Some(cur);
                    return Res::Err(vec![E::new(EK::UnknownNamed).input(&[b"--", name].concat())]);
                };
                let a = self.found(&levels, &found);
                if a.long_name().as_deref().map(str::as_bytes) != Some(name) {
                    t.ev |= ALIAS;
                }
                let inline = match val {
                    Some(v) => Inline::Eq(v),
                    None => Inline::None,
                };
                if val.is_some() {
                    t.ev |= EQ_LONG;
                }
                if let Err(e) =
                    self.named(&mut levels, found, inline, argv, &mut i, cur, None, 0, t)
                {
                    t.err_at = Some(cur);
                    return Res::Err(vec![e]);
                }
            } else if tok.len() > 1 && tok[0] == b'-' {
                t.ev |= SHORT;
                let body = &tok[1..];
                let valid = match std::str::from_utf8(body) {
                    Ok(s) => s,
                    Err(e) => std::str::from_utf8(&body[..e.valid_up_to()]).unwrap(),
                };
                let mut done = false;
                for (k, c) in valid.char_indices() {
                    if k > 0 {
                        t.ev |= BUNDLE;
                    }
                    let Some(found) = self.lookup(&levels, &Nm::Short(c), &mut t.ev) else {
                        if self.help && c == 'h' {
                            t.ev |= HELP;
                            return self.help_res(&levels, &units, path);
                        }
                        t.ev |= UNKNOWN;
                        t.err_at = Some(cur);
                        return Res::Err(vec![
                            E::new(EK::UnknownNamed).input(format!("-{c}").as_bytes()),
                        ]);
                    };
                    let a = self.found(&levels, &found);
                    if a.short_name() != Some(c) {
                        t.ev |= ALIAS;
                    }
                    let after = &body[k + c.len_utf8()..];
                    let inline = if let Some(v) = after.strip_prefix(b"=") {
                        t.ev |= EQ_SHORT;
                        Inline::Eq(v)
                    } else if after.is_empty() {
                        Inline::None
                    } else {
                        Inline::Tail(after)
                    };
                    match self.named(
                        &mut levels,
                        found,
                        inline,
                        argv,
                        &mut i,
                        cur,
                        Some(c),
                        k + 1,
                        t,
                    ) {
                        Ok(true) => {
                            done = true;
                            break;
                        }
                        Ok(false) => {}
                        Err(e) => {
                            t.err_at = Some(cur);
                            return Res::Err(vec![e]);
                        }
                    }
                }
                if !done && valid.len() < body.len() {
                    t.ev |= UNKNOWN;
                    t.err_at = Some(cur);
                    return Res::Err(vec![
                        E::new(EK::UnknownNamed).input(&[b"-", &body[valid.len()..]].concat()),
                    ]);
                }
            } else {
                // A bare argument: a subcommand, or a positional.
                if let Some(st) = levels[li].st
                    && let Some((_, en, _)) = self.spec.structs[st].sub()
                    && let Some(vi) =
                        self.spec.enums[en].variants.iter().position(|v| v.cmd().as_bytes() == tok)
                {
                    t.ev |= if li > 0 { SUB | SUB_DEEP } else { SUB };
                    t.subs.push(cur);
                    t.list_then_sub |= self.spec.structs[st]
                        .args()
                        .any(|(i, a)| !a.named && a.kind.multi() && levels[li].slots[i].is_set());
                    let n = levels.len();
                    levels[li].sub = Some((en, vi, n));
                    path.push(self.spec.enums[en].variants[vi].cmd());
                    match self.spec.enums[en].variants[vi].body.st() {
                        Some(s) => {
                            levels.push(self.inst(s));
                            units.push(None);
                        }
                        None => {
                            levels.push(Self::unit_inst());
                            units.push(Some((en, vi)));
                        }
                    }
                    cursor = 0;
                    continue;
                }
                if let Err(e) =
                    self.positional(&mut levels, &mut cursor, argv, cur, &mut i, false, t)
                {
                    return Res::Err(vec![e]);
                }
            }
        }
        let mut errs = vec![];
        let v = self.finish(&levels, 0, &mut errs, t);
        if errs.is_empty() { Res::Ok(v) } else { Res::Err(errs) }
    }

    fn help_res(
        &self,
        levels: &[Inst],
        units: &[Option<(usize, usize)>],
        path: Vec<String>,
    ) -> Res {
        Res::Help { st: levels.last().unwrap().st, unit: *units.last().unwrap(), path }
    }

    fn arg(&self, st: usize, f: usize) -> &'a Arg {
        self.spec.structs[st].fields[f].arg().unwrap()
    }

    fn found(&self, levels: &[Inst], f: &(usize, Vec<usize>, usize)) -> &'a Arg {
        let mut inst = &levels[f.0];
        for &k in &f.1 {
            inst = &inst.flats[k].1;
        }
        self.arg(inst.st.unwrap(), f.2)
    }

    #[allow(clippy::too_many_arguments)]
    fn named(
        &self,
        levels: &mut [Inst],
        found: (usize, Vec<usize>, usize),
        inline: Inline,
        argv: &[OsString],
        i: &mut usize,
        tok: usize,
        short: Option<char>,
        at: usize,
        t: &mut Trace,
    ) -> Result<bool, E> {
        let a = self.found(levels, &found);
        let n_levels = levels.len();
        let inst = Self::at(&mut levels[found.0], &found.1);
        let st = inst.st.unwrap();
        let slot = &mut inst.slots[found.2];
        let mut form = Form::Bare;
        let mut ends = a.kind.takes_value();
        let value: Option<Vec<u8>> = match inline {
            Inline::Eq(v) => {
                ends = true;
                form = if short.is_some() { Form::EqShort } else { Form::EqLong };
                Some(v.to_vec())
            }
            Inline::Tail(v) => {
                if a.req_eq {
                    t.ev |= MISSING_EQ;
                    return Err(E::new(EK::MissingEq).desc(a));
                }
                if a.kind.takes_value() {
                    form = Form::Attached;
                    t.ev |= ATTACHED;
                    Some(v.to_vec())
                } else {
                    None
                }
            }
            Inline::None if !a.kind.takes_value() => None,
            Inline::None if a.req_eq => {
                t.ev |= MISSING_EQ;
                return Err(E::new(EK::MissingEq).desc(a));
            }
            Inline::None => {
                form = Form::Sep;
                t.ev |= SEPARATE;
                let next = argv.get(*i).map(|s| s.as_bytes());
                let ok = match next {
                    None => false,
                    Some(b"-") => true,
                    Some(b) if !b.starts_with(b"-") => true,
                    Some(b) => match a.hyphen {
                        Hyphen::No => false,
                        Hyphen::Any => true,
                        Hyphen::Num => b[1..].iter().all(u8::is_ascii_digit),
                    },
                };
                if let Some(b) = next
                    && b.starts_with(b"-")
                    && b.len() > 1
                {
                    t.ev |= if ok { HYPHEN_TAKEN } else { HYPHEN_REFUSED };
                    if a.hyphen == Hyphen::Num {
                        t.ev |= NUM_HYPHEN;
                    }
                }
                if !ok {
                    t.ev |= MISSING_VALUE;
                    return Err(E::new(EK::MissingValue).desc(a));
                }
                let v = next.unwrap().to_vec();
                if self
                    .spec
                    .enums
                    .iter()
                    .any(|e| e.variants.iter().any(|c| c.cmd().as_bytes() == v))
                {
                    t.ev |= SUB_AS_VALUE;
                }
                if argv[*i].to_str().is_none() {
                    t.ev |= NON_UTF8;
                }
                *i += 1;
                Some(v)
            }
        };
        t.occs.push(Occ {
            tok,
            level: n_levels - 1,
            st,
            field: found.2,
            owner: (found.0, found.1.clone()),
            short,
            form,
            value: value.clone(),
            at,
        });
        self.store(a, slot, value.as_deref(), t)?;
        Ok(ends)
    }

    fn store(
        &self,
        a: &Arg,
        slot: &mut Slot,
        value: Option<&[u8]>,
        t: &mut Trace,
    ) -> Result<(), E> {
        if a.kind == Kind::Bool {
            if let Some(v) = value {
                t.ev |= INLINE_ERR;
                return Err(E::new(EK::InlineValue).input(v).desc(a));
            }
            t.ev |= FLAG;
        }
        if !a.kind.multi() && slot.is_set() {
            t.ev |= DUP_ERR;
            return Err(E::new(EK::Dup).desc(a));
        }
        match a.kind {
            Kind::Bool => *slot = Slot::Flag,
            Kind::Value | Kind::Opt => *slot = Slot::One(self.conv(a, value.unwrap(), t)?),
            Kind::OptOpt => {
                t.ev |= if value.is_some() { OPTVAL_SOME } else { OPTVAL_NONE };
                *slot = Slot::OptVal(match value {
                    Some(v) => Some(self.conv(a, v, t)?),
                    None => None,
                });
            }
            Kind::Vec | Kind::OptVec => {
                let mut vs = match std::mem::replace(slot, Slot::Unset) {
                    Slot::Many(v) => v,
                    _ => vec![],
                };
                for p in split(value.unwrap(), a.delim) {
                    vs.push(self.conv(a, p, t)?);
                }
                if a.delim.is_some() && vs.len() > 1 {
                    t.ev |= DELIM;
                }
                if vs.len() > 1 {
                    t.ev |= MULTI;
                }
                *slot = Slot::Many(vs);
            }
        }
        Ok(())
    }

    fn conv(&self, a: &Arg, raw: &[u8], t: &mut Trace) -> Result<Val, E> {
        let v: Vec<u8> = if a.ignore_case { raw.to_ascii_lowercase() } else { raw.to_vec() };
        if v != raw {
            t.ev |= IGNORE_CASE;
        }
        self.conv_ty(a.ty, &v).map_err(|(source, possible)| {
            t.ev |= INVALID;
            let mut e = E::new(EK::Invalid).input(raw).desc(a);
            e.source = source;
            e.possible = possible;
            e
        })
    }

    #[allow(clippy::type_complexity)]
    pub fn conv_ty(&self, ty: Ty, v: &[u8]) -> Result<Val, (Option<String>, Option<String>)> {
        let os = OsStr::from_bytes(v);
        fn from_str<T: std::str::FromStr + ToVal>(
            v: &[u8],
        ) -> Result<Val, (Option<String>, Option<String>)>
        where
            T::Err: ToString,
        {
            match std::str::from_utf8(v) {
                Ok(s) => match s.parse::<T>() {
                    Ok(x) => Ok(x.to_val()),
                    Err(e) => Err((Some(e.to_string()), None)),
                },
                Err(e) => Err((Some(e.to_string()), None)),
            }
        }
        match ty {
            Ty::Str => from_str::<String>(v),
            Ty::OsStr | Ty::Path | Ty::BoxOs => Ok(Val::Leaf(v.to_vec())),
            Ty::Cust => from_str::<Cust>(v),
            Ty::U8 => from_str::<u8>(v),
            Ty::I32 => from_str::<i32>(v),
            Ty::I64 => from_str::<i64>(v),
            Ty::F64 => from_str::<f64>(v),
            Ty::Char => from_str::<char>(v),
            Ty::Bool => from_str::<bool>(v),
            Ty::Nz => from_str::<std::num::NonZeroU32>(v),
            Ty::Even => from_str::<Even>(v),
            Ty::Tagged => {
                Tagged::try_from(os).map(|x| x.to_val()).map_err(|e| (Some(e.to_string()), None))
            }
            Ty::Dual => {
                Dual::try_from(os).map(|x| x.to_val()).map_err(|e| (Some(e.to_string()), None))
            }
            Ty::Infal => Ok(Infal::from(os).to_val()),
            Ty::Venum(k) => {
                let names = self.spec.venums[k].names();
                let possible = || {
                    let mut n = names.clone();
                    n.sort();
                    Some(format!("[possible values: {}]", n.join(", ")))
                };
                match std::str::from_utf8(v) {
                    Ok(s) => match names.iter().position(|n| n == s) {
                        Some(i) => Ok(Val::Leaf(format!("#{i}").into_bytes())),
                        None => Err((None, possible())),
                    },
                    Err(e) => Err((Some(e.to_string()), possible())),
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn positional(
        &self,
        levels: &mut [Inst],
        cursor: &mut usize,
        argv: &[OsString],
        tok: usize,
        i: &mut usize,
        after: bool,
        t: &mut Trace,
    ) -> Result<(), E> {
        let text = argv[tok].as_bytes();
        let inst = levels.last_mut().unwrap();
        let mut refuse = |sub: bool| {
            t.ev |= EXTRA;
            t.err_at = Some(tok);
            E::new(if sub { EK::UnknownSub } else { EK::Extra }).input(text)
        };
        let Some(st) = inst.st else {
            return Err(refuse(false));
        };
        let s = &self.spec.structs[st];
        let ps = s.positionals();
        let f = match ps.get(*cursor) {
            Some(&f) if after || !self.arg(st, f).last => f,
            _ => return Err(refuse(s.sub().is_some())),
        };
        let a = self.arg(st, f);
        if after
            && self.spec.enums.iter().any(|e| e.variants.iter().any(|c| c.cmd().as_bytes() == text))
        {
            t.ev |= SUB_AS_VALUE;
        }
        t.ev |= POSITIONAL;
        if !after {
            t.pos.push((tok, levels.len() - 1, f));
        }
        let inst = levels.last_mut().unwrap();
        if !a.kind.multi() {
            *cursor += 1;
        }
        let slot = &mut inst.slots[f];
        if let Err(e) = self.store(a, slot, Some(text), t) {
            t.err_at = Some(tok);
            return Err(e);
        }
        if a.trailing || a.last {
            t.ev |= if a.last { LAST } else { GREEDY };
            t.greedy_from = Some(tok);
            while *i < argv.len() {
                let at = *i;
                *i += 1;
                if let Err(e) = self.store(a, &mut inst.slots[f], Some(argv[at].as_bytes()), t) {
                    t.err_at = Some(at);
                    return Err(e);
                }
            }
        }
        Ok(())
    }

    /// Validate the level and build its value.
    pub fn finish(&self, levels: &[Inst], li: usize, errs: &mut Vec<E>, t: &mut Trace) -> Val {
        let mut v = self.finish_inst(levels, &levels[li], errs, t);
        if levels[li].st.is_none() {
            v = Val::Unit;
        }
        v
    }

    fn finish_inst(&self, levels: &[Inst], inst: &Inst, errs: &mut Vec<E>, t: &mut Trace) -> Val {
        let Some(st) = inst.st else { return Val::Unit };
        let s = &self.spec.structs[st];
        let total =
            s.args().filter(|(i, _)| inst.slots[*i].is_set()).count() + inst.sub.is_some() as usize;
        for (i, a) in s.args() {
            let set = inst.slots[i].is_set();
            if set {
                if a.exclusive && total > 1 {
                    t.ev |= CONSTRAINT_ERR;
                    errs.push(E::new(EK::Exclusive).desc(a));
                }
                for &r in &a.requires {
                    if !inst.slots[r].is_set() {
                        t.ev |= CONSTRAINT_ERR;
                        errs.push(E::new(EK::Requires).desc(self.arg(st, r)));
                    }
                }
                for &c in &a.conflicts {
                    if inst.slots[c].is_set() {
                        t.ev |= CONSTRAINT_ERR;
                        errs.push(E::new(EK::Conflict).desc(a));
                    }
                }
                if a.exclusive || !a.requires.is_empty() || !a.conflicts.is_empty() {
                    t.ev |= CONSTRAINT_OK;
                }
            } else if a.is_required() {
                t.ev |= REQUIRED_ERR;
                errs.push(E::new(EK::Required).desc(a));
            }
        }
        if let Some((_, _, false)) = s.sub()
            && inst.sub.is_none()
        {
            t.ev |= REQUIRED_ERR;
            errs.push(E::new(EK::RequiredSub));
        }
        let mut out = vec![];
        let mut flats = inst.flats.iter();
        for (i, f) in s.fields.iter().enumerate() {
            let v = match f {
                Field::Flat { .. } => {
                    let (_, fi) = flats.next().unwrap();
                    match self.finish_inst(levels, fi, errs, t) {
                        Val::Struct(fs) => Val::Flat(fs),
                        v => v,
                    }
                }
                Field::Sub { optional, .. } => {
                    let v = match inst.sub {
                        None => Val::None,
                        Some((en, vi, li)) => {
                            let v = self.finish(levels, li, errs, t);
                            let name = self.spec.enums[en].variants[vi].cmd();
                            let v = Val::Variant(name, Box::new(v));
                            if *optional { Val::Some(Box::new(v)) } else { v }
                        }
                    };
                    v
                }
                Field::Arg(a) => self.slot_val(a, &inst.slots[i], t),
            };
            out.push((f.plain(), v));
        }
        Val::Struct(out)
    }

    fn slot_val(&self, a: &Arg, slot: &Slot, t: &mut Trace) -> Val {
        let mut d;
        let mut slot = slot;
        if let Some(dflt) = &a.dflt {
            if slot.is_set() {
                t.ev |= DEFAULT_UNUSED;
            } else {
                t.ev |= DEFAULT_USED;
                d = Slot::Unset;
                let mut scratch = Trace::default();
                let mut a2 = a.clone();
                a2.ignore_case = false;
                let raw = dflt_raw(a, dflt, self.spec);
                if a.kind == Kind::Bool {
                    return Val::Bool(raw == "true");
                }
                let _ = self.store(&a2, &mut d, Some(raw.as_bytes()), &mut scratch);
                slot = &d;
            }
        }
        match (a.kind, slot) {
            (Kind::Bool, s) => Val::Bool(s.is_set()),
            (Kind::Value, Slot::One(v)) => v.clone(),
            (Kind::Opt, Slot::One(v)) => Val::Some(Box::new(v.clone())),
            (Kind::OptOpt, Slot::OptVal(Some(v))) => {
                Val::Some(Box::new(Val::Some(Box::new(v.clone()))))
            }
            (Kind::OptOpt, Slot::OptVal(None)) => Val::Some(Box::new(Val::None)),
            (Kind::Vec, Slot::Many(v)) => Val::List(v.clone()),
            (Kind::Vec, _) => Val::List(vec![]),
            (Kind::OptVec, Slot::Many(v)) => Val::Some(Box::new(Val::List(v.clone()))),
            _ => Val::None,
        }
    }
}

/// The raw text that a default stands for.
pub fn dflt_raw(a: &Arg, d: &Dflt, spec: &Spec) -> String {
    match d {
        Dflt::Str(s) => s.clone(),
        Dflt::Expr { raw, .. } => raw.clone(),
        Dflt::Inherit => match a.ty {
            Ty::U8 | Ty::I32 | Ty::I64 | Ty::F64 | Ty::Even => "0".into(),
            Ty::Char => "\0".into(),
            Ty::Bool => "false".into(),
            Ty::Venum(k) => spec.venums[k].value_name(0),
            _ => String::new(),
        },
    }
}

enum Inline<'v> {
    None,
    Eq(&'v [u8]),
    Tail(&'v [u8]),
}

pub fn split(v: &[u8], delim: Option<char>) -> Vec<&[u8]> {
    let Some(c) = delim else { return vec![v] };
    let mut buf = [0; 4];
    let d = c.encode_utf8(&mut buf).as_bytes();
    let mut out = vec![];
    let mut start = 0;
    let mut i = 0;
    while i + d.len() <= v.len() {
        if &v[i..i + d.len()] == d {
            out.push(&v[start..i]);
            i += d.len();
            start = i;
        } else {
            i += 1;
        }
    }
    out.push(&v[start..]);
    out
}

pub fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}
