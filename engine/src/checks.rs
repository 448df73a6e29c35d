//! The properties that are decided by parsing: generators, oracles, and what counts as non-trivial.
use crate::argv::*;
use crate::help;
use crate::model::*;
use crate::pairs;
use crate::run::{Unit, call, draw, show};
use crate::schema::*;
use crate::spec::*;
use crate::src::{Src, fnv};
use crate::types::*;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;

#[derive(Default)]
pub struct Rec {
    pub ev: u64,
    pub mode: &'static str,
    /// 0: accepted, 1: rejected, 2: help.
    pub outcome: u8,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
    pub calls: u64,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub argv: Vec<OsString>,
    pub why: String,
    pub expected: String,
    pub actual: String,
    /// Reproducible from the argument list alone.
    pub by_argv: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Oracle {
    /// The reference interpreter.
    Model,
    /// The assignment that the line was written from.
    Assign,
    /// Never panics, always the same.
    Total,
    /// Error texts, and that the rest of the line does not matter.
    ErrText,
    /// Help contents.
    Help,
    /// When and for which level help is given.
    HelpReq,
    /// Rewriting the spelling.
    Spell,
    /// `specs[0]` and `specs[1]` accept the same with the same values.
    PairVal,
    /// ... and reject with the same message, and give the same help.
    PairFull,
    /// `specs[1]` contains `specs[0]` behind some subcommand names.
    Embed,
    /// Built with and without `help`.
    NoHelp,
    /// palc and clap.
    Clap,
    /// `specs[1]` is `specs[0]` under other names, see `hostile`.
    Hostile,
    /// `Parser::parse` in a process of its own.
    Process,
}

pub struct Check {
    pub id: &'static str,
    pub what: &'static str,
    pub oracle: Oracle,
    pub n: (usize, usize),
    pub cases: (u32, u32),
    pub knobs: fn(usize) -> Knobs,
    pub mix: Mix,
    /// Only lines with one of these are compared (0: all).
    pub relevant: u64,
    /// Lines with one of these count as non-trivial (0: all with an argument).
    pub interesting: u64,
    /// Errors of these kinds must have exactly the right text.
    pub strict: &'static [EK],
}

pub const ALL_KINDS: &[EK] = &[
    EK::NoArgv0,
    EK::UnknownNamed,
    EK::UnknownSub,
    EK::Dup,
    EK::Extra,
    EK::InlineValue,
    EK::MissingValue,
    EK::Invalid,
    EK::MissingEq,
    EK::Required,
    EK::RequiredSub,
    EK::Requires,
    EK::Exclusive,
    EK::Conflict,
];

fn vary(k: Knobs, i: usize) -> Knobs {
    match i % 5 {
        0 => k,
        1 => {
            Knobs { sub: 90, depth: 3, global: 45, reuse: 40, variants: (1, 3), args: (1, 4), ..k }
        }
        2 => Knobs { flat: 80, args: (0, 4), sub: 30, ..k },
        3 => Knobs { positional: 65, sub: 25, args: (1, 5), ..k },
        _ => Knobs { args: (5, 14), sub: 20, dflt: 35, alias: 40, ..k },
    }
}

fn k_default(i: usize) -> Knobs {
    vary(Knobs::default(), i)
}
fn k_hostile(i: usize) -> Knobs {
    let kinds = [
        [20, 20, 25, 10, 15, 10],
        [20, 40, 0, 0, 20, 0],
        [20, 40, 0, 0, 0, 0],
        [0, 30, 20, 10, 20, 20],
    ][i / 5 % 4];
    Knobs { plain: true, raw: 15, dflt: 40, exclusive: 15, kinds, ..vary(Knobs::default(), i) }
}
fn k_hyphen(i: usize) -> Knobs {
    vary(
        Knobs {
            hyphen: 75,
            req_eq: 12,
            tys: [14, 6, 5, 1, 6, 4, 4, 3, 1, 1, 2, 3, 3, 2, 3],
            kinds: [15, 20, 25, 8, 20, 12],
            positional: 25,
            ..Knobs::default()
        },
        i,
    )
}
fn k_multi(i: usize) -> Knobs {
    vary(
        Knobs {
            alias: 45,
            short: 75,
            kinds: [20, 15, 15, 15, 20, 15],
            delim: 55,
            required: 5,
            requires: 3,
            conflicts: 3,
            exclusive: 0,
            ..Knobs::default()
        },
        i,
    )
}
fn k_pos(i: usize) -> Knobs {
    Knobs {
        positional: 75,
        trailing: 30,
        last: 35,
        sub: if i % 3 == 0 { 70 } else { 15 },
        args: (1, 5),
        requires: 3,
        conflicts: 3,
        exclusive: 0,
        ..Knobs::default()
    }
}
fn k_sub(i: usize) -> Knobs {
    Knobs {
        sub: 95,
        depth: if i % 20 == 19 { 7 } else { 1 + i % 4 },
        args: if i % 5 == 2 { (2, 6) } else { (0, 3) },
        variants: (1, 5),
        positional: if i % 5 == 2 { 80 } else { 40 },
        requires: 5,
        conflicts: 5,
        exclusive: 0,
        flat: 15,
        ..Knobs::default()
    }
}
fn k_global(i: usize) -> Knobs {
    Knobs {
        sub: 97,
        depth: 1 + i % 4,
        args: (1, 4),
        variants: (1, 3),
        positional: 15,
        global: 55,
        reuse: 45,
        flat: 35,
        requires: 6,
        conflicts: 6,
        exclusive: 0,
        required: 6,
        kinds: [25, 10, 25, 10, 20, 10],
        ..Knobs::default()
    }
}
fn k_constraint(i: usize) -> Knobs {
    if i % 6 == 5 {
        // Something exclusive next to everything else, which takes that nothing is required.
        return Knobs {
            args: (2, 6),
            exclusive: 34,
            required: 0,
            requires: 10,
            conflicts: 10,
            flat: 0,
            positional: 35,
            last: 45,
            sub: 60,
            sub_optional: 100,
            kinds: [25, 3, 30, 12, 15, 15],
            global: 25,
            ..Knobs::default()
        };
    }
    Knobs {
        args: (2, 6),
        requires: 35,
        conflicts: 35,
        exclusive: 12,
        required: 25,
        dflt: 20,
        sub: if i % 3 == 0 { 80 } else { 25 },
        flat: if i % 4 == 1 { 80 } else { 15 },
        kinds: [25, 15, 25, 12, 13, 10],
        global: 25,
        ..Knobs::default()
    }
}
fn k_dflt(i: usize) -> Knobs {
    vary(
        Knobs {
            dflt: 75,
            required: 5,
            requires: 15,
            conflicts: 15,
            exclusive: 8,
            kinds: [20, 30, 20, 12, 10, 8],
            ..Knobs::default()
        },
        i,
    )
}
fn k_value(i: usize) -> Knobs {
    Knobs {
        args: (1, 5),
        kinds: [5, 30, 25, 10, 18, 12],
        tys: [8, 8, 6, 5, 5, 4, 5, 5, 4, 4, 6, 8, 8, 6, 8],
        requires: 2,
        conflicts: 2,
        exclusive: 0,
        positional: 40,
        sub: 25,
        dflt: if i % 2 == 0 { 0 } else { 25 },
        ..Knobs::default()
    }
}
fn k_venum(i: usize) -> Knobs {
    Knobs {
        args: (2, 6),
        kinds: [3, 30, 27, 10, 18, 12],
        tys: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        venum: match i {
            _ if i % 45 == 7 => (270, 400),
            _ if i % 3 == 0 => (4, 12),
            _ => (1, 5),
        },
        ignore_case: 55,
        requires: 2,
        conflicts: 2,
        exclusive: 0,
        unicode: 12,
        raw: 15,
        dflt: 30,
        sub: 20,
        ..Knobs::default()
    }
}
fn k_help(i: usize) -> Knobs {
    vary(
        Knobs {
            doc: 65,
            hide: 20,
            about: 80,
            dflt: 35,
            value_name: 30,
            required: 25,
            flat: 35,
            ..Knobs::default()
        },
        i,
    )
}
fn k_helpreq(i: usize) -> Knobs {
    vary(
        Knobs {
            shadow_help: if i % 2 == 0 { 0 } else { 15 },
            trailing: 25,
            last: 25,
            hyphen: 50,
            ..Knobs::default()
        },
        i,
    )
}
fn k_eq(i: usize) -> Knobs {
    vary(
        Knobs {
            req_eq: 55,
            kinds: [18, 15, 15, 35, 10, 7],
            short: 80,
            positional: 20,
            required: 5,
            requires: 3,
            conflicts: 3,
            exclusive: 0,
            ..Knobs::default()
        },
        i,
    )
}
fn k_names(i: usize) -> Knobs {
    Knobs {
        args: match i % 4 {
            0 => (150, 251),
            1 => (60, 130),
            2 => (20, 50),
            _ => (5, 20),
        },
        dense_names: true,
        fill: i % 8 == 0,
        flat_args: if i % 8 == 6 { (100, 220) } else { (1, 3) },
        alias: 45,
        short: 35,
        unicode: if i % 2 == 0 { 3 } else { 25 },
        positional: 2,
        sub: if i % 2 == 1 { 90 } else { 0 },
        depth: 1,
        variants: if i % 4 == 1 { (60, 90) } else { (5, 12) },
        fill_variants: if i % 8 == 3 { 300 + i % 400 } else { 0 },
        flat: if i % 8 == 6 { 100 } else { 15 },
        kinds: [40, 5, 30, 5, 12, 8],
        doc: 0,
        about: 0,
        required: 0,
        requires: 1,
        conflicts: 1,
        exclusive: 0,
        dflt: 10,
        ..Knobs::default()
    }
}
fn k_flat(i: usize) -> Knobs {
    Knobs {
        flat: 100,
        flat_depth: 1 + i % 5,
        flat_args: (1, 4),
        args: (0, 4),
        sub: 35,
        exclusive: 0,
        requires: 18,
        conflicts: 18,
        required: 20,
        dflt: 30,
        global: 30,
        flat_collide: if i % 4 == 3 { 55 } else { 0 },
        ..Knobs::default()
    }
}
fn k_order(i: usize) -> Knobs {
    Knobs { exclusive: 3, flat: 45, sub: 60, variants: (2, 5), ..vary(Knobs::default(), i) }
}
fn k_embed(i: usize) -> Knobs {
    if i % 24 == 7 {
        let variants = (60, 140);
        return Knobs { sub: 100, variants, depth: 1, args: (0, 2), flat: 5, ..Knobs::default() };
    }
    Knobs { sub: 85, variants: (1, 5), doc: 50, about: 80, depth: 1 + i % 3, ..Knobs::default() }
}
pub fn k_clap(i: usize) -> Knobs {
    let mut k = Knobs {
        clap: true,
        unicode: 2,
        raw: 6,
        hide: 5,
        reuse: 5,
        global: 25,
        ..vary(Knobs::default(), i)
    };
    // Types that clap has no parser for.
    k.tys[2] = 0; // clap refuses an empty path.
    k.tys[11] = 0;
    k.tys[12] = 0;
    k
}

/// All kinds, for C17.
pub fn k_mixed(i: usize) -> Knobs {
    let k = [
        k_default,
        k_help,
        k_constraint,
        k_pos,
        k_embed,
        k_flat,
        k_venum,
        k_dflt,
        k_multi,
        k_hyphen,
        k_eq,
        k_value,
    ];
    let j = i / k.len();
    k[i % k.len()](j + i)
}
fn k_process(i: usize) -> Knobs {
    Knobs { doc: 30, ..vary(Knobs::default(), i) }
}

fn mix(w: [u32; 4]) -> Mix {
    Mix { w, ..Mix::default() }
}

const SUBS: u64 = SUB | SUB_DEEP;

pub fn all() -> Vec<Check> {
    use Oracle::*;
    let base = || Check {
        id: "",
        what: "",
        oracle: Model,
        n: (300, 2400),
        cases: (5000, 20000),
        knobs: k_default,
        mix: Mix::default(),
        relevant: 0,
        interesting: 0,
        strict: &[],
    };
    vec![
        Check {
            id: "C01",
            what: "lines written from an assignment in random spellings; oracle: that assignment",
            oracle: Assign,
            mix: mix([100, 0, 0, 0]),
            ..base()
        },
        Check {
            id: "C02",
            what: "valid, mutated and free-form lines; oracle: reference interpreter (value, or kind of error)",
            n: (360, 3000),
            ..base()
        },
        Check {
            id: "C03",
            what: "mostly malformed lines and raw bytes; oracle: no panic, bounded polling, same result again and from other item types",
            oracle: Total,
            mix: Mix { non_utf8: 25, help: 5, ..mix([12, 38, 25, 25]) },
            ..base()
        },
        Check {
            id: "C04",
            what: "value options followed by hyphen-leading texts; oracle: reference interpreter",
            knobs: k_hyphen,
            mix: Mix { nasty: 75, ..mix([25, 30, 45, 0]) },
            relevant: HYPHEN_TAKEN
                | HYPHEN_REFUSED
                | SEPARATE
                | ATTACHED
                | EQ_LONG
                | EQ_SHORT
                | MISSING_VALUE,
            interesting: HYPHEN_TAKEN | HYPHEN_REFUSED,
            ..base()
        },
        Check {
            id: "C05",
            what: "repeated occurrences under mixed names, lists with delimiters; oracle: reference interpreter",
            knobs: k_multi,
            mix: Mix { give: 65, ..mix([35, 45, 20, 0]) },
            interesting: DUP_ERR | MULTI | DELIM,
            ..base()
        },
        Check {
            id: "C06",
            what: "positionals, `--`, trailing and last arguments; oracle: reference interpreter",
            knobs: k_pos,
            mix: Mix { give: 65, nasty: 45, enter: 35, ..mix([40, 35, 25, 0]) },
            relevant: POSITIONAL | DASHDASH | EXTRA | GREEDY | LAST | REQUIRED_ERR,
            interesting: DASHDASH | GREEDY | LAST | EXTRA,
            ..base()
        },
        Check {
            id: "C07",
            what: "nested subcommands, names of subcommands as values; oracle: reference interpreter",
            knobs: k_sub,
            mix: Mix { nasty: 45, enter: 80, ..mix([35, 35, 30, 0]) },
            relevant: SUBS | EXTRA | SUB_AS_VALUE | REQUIRED_ERR | DASHDASH,
            interesting: SUBS | SUB_AS_VALUE,
            strict: &[EK::UnknownSub, EK::RequiredSub],
            ..base()
        },
        Check {
            id: "C08",
            what: "globals across levels, with shadowing; oracle: reference interpreter",
            knobs: k_global,
            mix: Mix { enter: 85, give: 55, ..mix([45, 30, 25, 0]) },
            relevant: GLOBAL | SHADOWED | UNKNOWN | SUBS,
            interesting: GLOBAL | SHADOWED,
            ..base()
        },
        Check {
            id: "C09",
            what: "the same definition flattened and inline; a flattened name that is also a direct one",
            oracle: PairVal,
            n: (240, 1800),
            knobs: k_flat,
            interesting: FLAT,
            ..base()
        },
        Check {
            id: "C10",
            what: "required, requires, conflicts, exclusive; oracle: reference interpreter, with the texts of constraint errors",
            knobs: k_constraint,
            mix: Mix { give: 45, nasty: 10, ..mix([40, 45, 15, 0]) },
            relevant: CONSTRAINT_ERR | CONSTRAINT_OK | REQUIRED_ERR,
            interesting: CONSTRAINT_ERR | CONSTRAINT_OK | REQUIRED_ERR,
            strict: &[EK::Required, EK::Requires, EK::Exclusive, EK::Conflict, EK::RequiredSub],
            ..base()
        },
        Check {
            id: "C11",
            what: "defaults of all forms on all field kinds; oracle: reference interpreter",
            knobs: k_dflt,
            mix: Mix { give: 50, nasty: 10, ..mix([55, 30, 15, 0]) },
            relevant: DEFAULT_USED | DEFAULT_UNUSED | REQUIRED_ERR | CONSTRAINT_ERR | DUP_ERR,
            interesting: DEFAULT_USED | DEFAULT_UNUSED,
            ..base()
        },
        Check {
            id: "C12",
            what: "all value types and byte strings; oracle: the conversion called directly",
            knobs: k_value,
            mix: Mix { non_utf8: 22, nasty: 40, give: 65, ..mix([45, 38, 17, 0]) },
            interesting: NON_UTF8 | INVALID | EQ_LONG | EQ_SHORT | ATTACHED | SEPARATE | POSITIONAL,
            strict: &[EK::Invalid],
            ..base()
        },
        Check {
            id: "C13",
            what: "derived value enums with all case rules; oracle: the list of names",
            knobs: k_venum,
            mix: Mix { give: 65, nasty: 10, non_utf8: 8, ..mix([50, 35, 15, 0]) },
            interesting: INVALID
                | IGNORE_CASE
                | EQ_LONG
                | EQ_SHORT
                | ATTACHED
                | SEPARATE
                | POSITIONAL,
            strict: &[EK::Invalid],
            ..base()
        },
        Check {
            id: "C14",
            what: "rejected lines; oracle: full error text from the reference interpreter, source, and the same error whatever follows",
            oracle: ErrText,
            n: (360, 3000),
            mix: Mix { non_utf8: 10, ..mix([5, 60, 35, 0]) },
            strict: ALL_KINDS,
            ..base()
        },
        Check {
            id: "C15",
            what: "help of every level; oracle: contents computed from the definition",
            oracle: Help,
            n: (520, 4000),
            cases: (250, 600),
            knobs: k_help,
            ..base()
        },
        Check {
            id: "C16",
            what: "the same definitions built with and without `help`; oracle: each other",
            oracle: NoHelp,
            n: (240, 1600),
            knobs: k_helpreq,
            mix: Mix { help: 8, ..Mix::default() },
            ..base()
        },
        Check {
            id: "C18",
            what: "the same definition derived by palc and clap; oracle: each other",
            oracle: Clap,
            n: (160, 1200),
            cases: (3000, 10000),
            knobs: k_clap,
            ..base()
        },
        Check {
            id: "C19",
            what: "processes started with generated argument vectors, program names and environments, whose main calls `parse()`; oracle: the parse of the same list within this process",
            oracle: Process,
            n: (100, 600),
            cases: (400, 2000),
            knobs: k_process,
            mix: Mix { help: 12, non_utf8: 8, ..mix([45, 30, 25, 0]) },
            ..base()
        },
        Check {
            id: "C20",
            what: "require_equals and optional values; oracle: reference interpreter",
            knobs: k_eq,
            mix: Mix { give: 60, nasty: 40, ..mix([40, 35, 25, 0]) },
            relevant: OPTVAL_NONE
                | OPTVAL_SOME
                | MISSING_EQ
                | EQ_LONG
                | EQ_SHORT
                | INLINE_ERR
                | MISSING_VALUE,
            interesting: OPTVAL_NONE | OPTVAL_SOME | MISSING_EQ,
            ..base()
        },
        Check {
            id: "C21",
            what: "definitions with up to 254 fields, 700 subcommands and lookalike names; oracle: reference interpreter",
            n: (64, 320),
            cases: (2500, 8000),
            knobs: k_names,
            mix: Mix { give: 6, nasty: 10, ..mix([40, 30, 30, 0]) },
            ..base()
        },
        Check {
            id: "C22",
            what: "lines and their respelled versions; oracle: equal outcome",
            oracle: Spell,
            knobs: k_multi,
            mix: Mix { give: 60, ..mix([45, 40, 15, 0]) },
            ..base()
        },
        Check {
            id: "C23",
            what: "a definition, and the same under hostile names, in other places and editions; oracle: it compiles, and has the same outcome",
            oracle: Hostile,
            n: (240, 1600),
            cases: (2500, 10000),
            knobs: k_hostile,
            mix: Mix { help: 10, ..Mix::default() },
            ..base()
        },
        Check {
            id: "C24",
            what: "help requests anywhere in a line; oracle: reference interpreter and the usage path shown",
            oracle: HelpReq,
            knobs: k_helpreq,
            mix: Mix { help: 45, enter: 75, nasty: 30, ..mix([15, 45, 40, 0]) },
            interesting: HELP,
            ..base()
        },
        Check {
            id: "C25",
            what: "a definition and its reordered, extended version; oracle: equal values",
            oracle: PairVal,
            n: (240, 1800),
            knobs: k_order,
            ..base()
        },
        Check {
            id: "C26",
            what: "variants written inline, as separate structs and as unit variants; a parser embedded as a subcommand; oracle: equal outcome",
            oracle: PairFull,
            n: (240, 1800),
            knobs: k_embed,
            mix: Mix { help: 10, ..Mix::default() },
            ..base()
        },
    ]
}

pub fn by_id(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}

pub fn outcome(o: &Out) -> u8 {
    match o {
        Out::Ok(_) => 0,
        Out::Err { .. } => 1,
        Out::Help(_) => 2,
    }
}

pub fn text(r: &Result<Out, String>) -> String {
    match r {
        Ok(Out::Ok(v)) => format!("Ok({v:?})"),
        Ok(Out::Help(h)) => format!("Help({h:?})"),
        Ok(Out::Err { msg, source }) => format!("Err({msg:?}, source {source:?})"),
        Err(p) => format!("panic: {p}"),
    }
}

pub fn res_text(r: &Res) -> String {
    match r {
        Res::Ok(v) => format!("Ok({v:?})"),
        Res::Err(es) => {
            format!("Err, one of {:?}", es.iter().flat_map(|e| e.texts()).collect::<Vec<_>>())
        }
        Res::Help { path, .. } => format!("Help of {path:?}"),
    }
}

/// Whether the real outcome is one that the reference allows.
pub fn agree(res: &Res, out: &Result<Out, String>, strict: &[EK]) -> Result<(), String> {
    let out = match out {
        Ok(o) => o,
        Err(p) => return Err(format!("panic: {p}")),
    };
    match (res, out) {
        (Res::Ok(v), Out::Ok(w)) => {
            if v == w {
                Ok(())
            } else {
                Err("accepted with different values".into())
            }
        }
        (Res::Err(es), Out::Err { msg, source }) => {
            let Some(k) = classify(msg) else {
                return Err("unknown kind of error".into());
            };
            let same = |e: &&E| e.kind == k || (e.kind == EK::Extra && k == EK::UnknownNamed);
            let cands: Vec<&E> = es.iter().filter(same).collect();
            if cands.is_empty() {
                return Err("rejected for a different reason".into());
            }
            if strict.contains(&k) {
                if !cands.iter().any(|e| e.texts().contains(msg)) {
                    return Err("rejected with a different message".into());
                }
                if !cands.iter().any(|e| e.source == *source) {
                    return Err("rejected with a different source".into());
                }
            }
            Ok(())
        }
        (Res::Help { path, .. }, Out::Help(h)) => help::check_path(h, path),
        (Res::Ok(_), _) => Err("a valid line is not accepted".into()),
        (Res::Err(_), Out::Ok(_)) => Err("an invalid line is accepted".into()),
        (Res::Err(_), Out::Help(_)) => Err("help given where none was asked for".into()),
        (Res::Help { .. }, _) => Err("no help given".into()),
    }
}

impl Check {
    pub fn cases(&self, thorough: bool) -> u32 {
        if thorough { self.cases.1 } else { self.cases.0 }
    }

    pub fn rule(&self) -> String {
        let names: Vec<&str> = (0..EV_NAMES.len())
            .filter(|i| self.interesting >> i & 1 == 1)
            .map(|i| EV_NAMES[i])
            .collect();
        let what = if names.is_empty() {
            "it has at least one argument".to_string()
        } else {
            format!(
                "processing it (by the reference interpreter) involves one of: {}",
                names.join(", ")
            )
        };
        format!(
            "Definitions are drawn by proptest from a grammar of definitions and compiled with the derive macros; {}. A line counts once per definition, if {what}.",
            self.what
        )
    }

    pub fn units(&self, seed: u64, thorough: bool) -> Vec<Unit> {
        let n = if thorough { self.n.1 } else { self.n.0 };
        (0..n).map(|i| self.unit(seed, i)).collect()
    }

    fn unit(&self, seed: u64, i: usize) -> Unit {
        let knobs = (self.knobs)(i);
        for salt in 0.. {
            let words = draw(
                seed,
                self.id,
                i,
                100 + salt,
                if knobs.dense_names { 100_000 } else { 12_000 },
            );
            let mut s = Src::new(&words);
            let spec = Gen::new(&mut s, knobs.clone()).generate();
            let mut rest: Vec<u64> = (0..400).map(|_| s.word()).collect();
            if rest.iter().all(|&w| w == 0) {
                rest = draw(seed, self.id, i, 50_000 + salt, 400);
            }
            let mut aux = Src::new(&rest);
            let specs = match (self.oracle, self.id) {
                (Oracle::PairVal, "C09") => match pairs::inline_flats(spec, knobs.flat_collide > 0)
                {
                    Some(p) => p,
                    None => continue,
                },
                (Oracle::PairVal, _) => pairs::reorder(spec, &mut aux),
                (Oracle::PairFull, _) if i % 3 == 2 => pairs::embed(spec, &mut aux),
                (Oracle::PairFull, _) => pairs::variants(spec, &mut aux),
                (Oracle::Hostile, _) => {
                    let (specs, env) = crate::hostile::rename(spec, &mut aux);
                    return Unit { specs, tag: env.tag(), index: i };
                }
                (Oracle::Clap, _) => {
                    let mut spec = spec;
                    crate::clapcmp::clapify(&mut spec);
                    vec![spec]
                }
                _ => vec![spec],
            };
            return Unit { specs, tag: String::new(), index: i };
        }
        unreachable!()
    }

    pub fn generate(&self, u: &Unit, words: &[u64]) -> Case {
        let m = Model { spec: &u.specs[0], help: true };
        let mut s = Src::new(words);
        let mut a = Argv { m: &m, s: &mut s, mix: &self.mix };
        if self.oracle == Oracle::Help { a.help_case() } else { a.case() }
    }

    pub fn test(
        &self,
        u: &Unit,
        fns: &[RunFn],
        case: &Case,
        aux: &[u64],
        rec: &mut Rec,
    ) -> Result<(), Fail> {
        if let Some(v) = &case.expect {
            // The two oracles must agree with each other.
            let m = Model { spec: &u.specs[0], help: true };
            let (r, _) = m.run(&case.argv);
            if r != Res::Ok(v.clone()) {
                panic!("oracles disagree on {:?}: {r:?} and {v:?}", case.argv);
            }
        }
        if self.oracle == Oracle::Assign && case.expect.is_none() {
            rec.mode = "discarded";
            return Ok(());
        }
        self.judge(u, fns, &case.argv, aux, rec)
    }

    pub fn judge(
        &self,
        u: &Unit,
        fns: &[RunFn],
        argv: &[OsString],
        aux: &[u64],
        rec: &mut Rec,
    ) -> Result<(), Fail> {
        let m = Model { spec: &u.specs[0], help: true };
        let (res, t) = m.run(argv);
        rec.ev = t.ev;
        rec.key = fnv(&argv.iter().map(|a| a.as_bytes()).collect::<Vec<_>>());
        rec.nontrivial =
            if self.interesting == 0 { argv.len() > 1 } else { t.ev & self.interesting != 0 };
        if self.relevant != 0 && t.ev & self.relevant == 0 {
            rec.mode = "irrelevant";
            rec.nontrivial = false;
            rec.outcome = 9;
            return Ok(());
        }
        let out = call(fns[0], argv);
        rec.calls += 1;
        rec.outcome = out.as_ref().map_or(3, outcome);
        if rec.nontrivial {
            rec.sample = format!("{} -> {}", show(argv), text(&out));
        }
        let fail = |why: String, expected: String, actual: String| {
            Err(Fail { argv: argv.to_vec(), why, expected, actual, by_argv: true })
        };
        if let Err(p) = &out
            && self.oracle != Oracle::Clap
        {
            return fail(format!("panic: {p}"), res_text(&res), text(&out));
        }
        let against_model = |strict: &[EK]| match agree(&res, &out, strict) {
            Ok(()) => Ok(()),
            Err(why) => fail(why, res_text(&res), text(&out)),
        };
        match self.oracle {
            Oracle::Model | Oracle::Assign => against_model(self.strict),
            Oracle::HelpReq => match (&res, &out) {
                (Res::Help { .. }, _) | (_, Ok(Out::Help(_))) => against_model(&[]),
                // Errors before a request for help win.
                _ if argv.iter().any(|a| {
                    let b = a.as_bytes();
                    b.starts_with(b"--help")
                        || (b.starts_with(b"-") && !b.starts_with(b"--") && b.contains(&b'h'))
                }) =>
                {
                    against_model(&[])
                }
                _ => {
                    rec.nontrivial = false;
                    Ok(())
                }
            },
            Oracle::Total => {
                for (k, f) in fns.iter().enumerate() {
                    for again in 0..2 {
                        let o = call(*f, argv);
                        rec.calls += 1;
                        // Other item types cannot express everything.
                        if k == 2 && argv.iter().any(|a| a.to_str().is_none()) {
                            continue;
                        }
                        if o != out {
                            return fail(
                                format!(
                                    "a different result from the same list (form {k}, run {again})"
                                ),
                                text(&out),
                                text(&o),
                            );
                        }
                    }
                }
                Ok(())
            }
            Oracle::ErrText => {
                // Which lines are accepted is for others to decide.
                if let (Res::Err(_), Ok(Out::Err { .. })) = (&res, &out) {
                    against_model(ALL_KINDS)?;
                }
                let Ok(Out::Err { msg, .. }) = &out else {
                    return Ok(());
                };
                if msg.lines().next().is_some_and(|l| l.chars().any(|c| c.is_control())) {
                    return fail(
                        "control characters in the message".into(),
                        "a printable line".into(),
                        text(&out),
                    );
                }
                // What follows the offending argument does not matter.
                if let (Some(e), Res::Err(_)) = (t.err_at, &res) {
                    let mut s = Src::new(aux);
                    let mut longer = argv[..(e + 2).min(argv.len())].to_vec();
                    if longer.len() == e + 2 {
                        let n = s.below(4);
                        let pool = junk(&u.specs[0]);
                        for _ in 0..n {
                            longer.push(s.pick(&pool).clone());
                        }
                        let o = call(fns[0], &longer);
                        rec.calls += 1;
                        if o != out {
                            return fail(
                                format!("later arguments change the error: {}", show(&longer)),
                                text(&out),
                                text(&o),
                            );
                        }
                    }
                }
                Ok(())
            }
            Oracle::Help => {
                let (Res::Help { st, unit, path }, Ok(Out::Help(h))) = (&res, &out) else {
                    return against_model(&[]);
                };
                if let Err(why) = help::check(&u.specs[0], *st, *unit, path, h) {
                    return fail(why, "help as declared".into(), h.clone());
                }
                if path.len() == 1 && argv[0].to_str().is_some() && fns.len() > 1 {
                    let o = call(fns[1], &argv[..1]);
                    rec.calls += 1;
                    if o != out && m.run(&[argv[0].clone(), "--help".into()]).0 == res {
                        return fail("`render_long_help` differs".into(), text(&out), text(&o));
                    }
                }
                Ok(())
            }
            Oracle::Spell => {
                let Some((other, how)) = pairs::respell(&m, argv, &t, &res, aux) else {
                    rec.nontrivial = false;
                    return Ok(());
                };
                let o = call(fns[0], &other);
                rec.calls += 1;
                rec.sample = format!("{} = {} [{how}] -> {}", show(argv), show(&other), text(&out));
                if o == out {
                    return Ok(());
                }
                Err(Fail {
                    argv: argv.to_vec(),
                    why: format!("respelled ({how}) as {}", show(&other)),
                    expected: text(&out),
                    actual: text(&o),
                    by_argv: true,
                })
            }
            Oracle::PairVal => {
                if u.specs.len() < 2 {
                    // Collisions: only the reference can tell.
                    return against_model(&[]);
                }
                let o = call(fns[1], argv);
                rec.calls += 1;
                let norm = |o: &Result<Out, String>| match o {
                    Ok(Out::Ok(v)) if self.id == "C09" => Some(v.clone().normal()),
                    Ok(Out::Ok(v)) => Some(pairs::strip_added(v.clone().sorted())),
                    _ => None,
                };
                if norm(&o) == norm(&out) && out.is_ok() == o.is_ok() {
                    return Ok(());
                }
                fail("the two definitions differ".into(), text(&out), text(&o))
            }
            Oracle::PairFull => {
                let (argv2, strip) = pairs::embed_argv(u, argv);
                if strip > 0 && argv.is_empty() {
                    rec.nontrivial = false;
                    return Ok(());
                }
                let o = call(fns[1], &argv2);
                rec.calls += 1;
                let a = pairs::comparable(&out, 0);
                let b = pairs::comparable(&o, strip);
                if a == b {
                    return Ok(());
                }
                fail(format!("the two definitions differ, the second on {}", show(&argv2)), a, b)
            }
            Oracle::Hostile => {
                let o = call(fns[1], argv);
                rec.calls += 1;
                let a = crate::hostile::comparable(&out);
                let b = crate::hostile::comparable(&o);
                if a == b {
                    return Ok(());
                }
                fail("differs under other names".into(), a, b)
            }
            Oracle::Embed => unreachable!(),
            Oracle::Process => crate::process::judge(u, fns, argv, aux, rec, out),
            Oracle::NoHelp => {
                let o = call(fns[1], argv);
                rec.calls += 1;
                if let Ok(Out::Help(_)) = &out {
                    let (r2, _) = Model { spec: &u.specs[0], help: false }.run(argv);
                    return match agree(&r2, &o, &[EK::UnknownNamed]) {
                        Ok(()) => Ok(()),
                        Err(why) => fail(format!("without help: {why}"), res_text(&r2), text(&o)),
                    };
                }
                if o == out {
                    return Ok(());
                }
                fail("different without the help feature".into(), text(&out), text(&o))
            }
            Oracle::Clap => crate::clapcmp::judge(u, fns, argv, &res, &t, out, rec),
        }
    }
}

fn junk(spec: &Spec) -> Vec<OsString> {
    let mut v: Vec<OsString> =
        ["--", "-", "x", "--nope", "-h", "--help", "", "-1", "=", "--="].map(Into::into).to_vec();
    v.push(os(b"\xff"));
    for e in &spec.enums {
        v.extend(e.variants.iter().take(4).map(|c| c.cmd().into()));
    }
    for s in &spec.structs {
        for (_, a) in s.args().take(4) {
            v.extend(a.longs().into_iter().map(|l| format!("--{l}").into()));
            v.extend(a.shorts().into_iter().map(|c| format!("-{c}").into()));
        }
    }
    v
}
