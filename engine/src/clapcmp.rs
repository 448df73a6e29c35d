//! Agreement with clap.
use crate::checks::{Fail, Rec, text};
use crate::model::*;
use crate::pairs::pin;
use crate::run::{Unit, call};
use crate::spec::*;
use crate::types::*;
use std::collections::HashSet;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;

/// Restrict a definition to what both crates define in the same way.
pub fn clapify(spec: &mut Spec) {
    // clap identifies arguments by field name, over a whole tree of commands.
    let mut seen = HashSet::new();
    for st in &mut spec.structs {
        for f in &mut st.fields {
            if let Field::Arg(a) = f {
                // Otherwise, the names derived from it have to agree too.
                if seen.contains(&a.plain_ident()) {
                    pin(a);
                }
                a.value_name = None;
                let mut n = 0;
                while !seen.insert(a.plain_ident()) {
                    n += 1;
                    a.words.push(format!("u{n}"));
                    a.id = None;
                }
            }
        }
    }
    // No name of an inner level may be that of a global one.
    let is_flat: HashSet<usize> =
        spec.structs.iter().flat_map(|s| s.flats().map(|(_, f)| f).collect::<Vec<_>>()).collect();
    for st in 0..spec.structs.len() {
        if is_flat.contains(&st) {
            continue;
        }
        let mut below = HashSet::new();
        if let Some((_, en, _)) = spec.structs[st].sub() {
            for v in &spec.enums[en].variants {
                if let Some(s) = v.body.st() {
                    names(spec, s, &mut below);
                }
            }
        }
        let mut todo = vec![st];
        while let Some(s) = todo.pop() {
            todo.extend(spec.structs[s].flats().map(|(_, f)| f));
            for f in &mut spec.structs[s].fields {
                if let Field::Arg(a) = f
                    && a.global
                    && (a.longs().iter().any(|l| below.contains(l))
                        || a.shorts().iter().any(|c| below.contains(&format!("-{c}"))))
                {
                    a.global = false;
                }
            }
        }
    }
    let any_global = spec.structs.iter().any(|s| s.args().any(|(_, a)| a.global));
    for (i, st) in spec.structs.iter_mut().enumerate() {
        let globals: HashSet<usize> = st.args().filter(|(_, a)| a.global).map(|(i, _)| i).collect();
        let needed: HashSet<usize> = st
            .args()
            .flat_map(|(i, a)| {
                a.requires.iter().copied().chain(a.is_required().then_some(i)).collect::<Vec<_>>()
            })
            .collect();
        let no_exclusive = any_global || st.sub().is_some() || is_flat.contains(&i);
        for (k, f) in st.fields.iter_mut().enumerate() {
            if let Field::Arg(a) = f {
                // Checked per level in clap, for each level that a global is copied to.
                a.requires.retain(|r| !globals.contains(r) && !globals.contains(&k));
                a.conflicts.retain(|r| !globals.contains(r) && !globals.contains(&k));
                // clap drops a requirement that a given argument conflicts with.
                a.conflicts.retain(|r| !needed.contains(r) && !needed.contains(&k));
                if no_exclusive {
                    a.exclusive = false;
                }
            }
        }
    }
}

fn names(spec: &Spec, st: usize, out: &mut HashSet<String>) {
    for (_, a) in spec.structs[st].args() {
        out.extend(a.longs());
        out.extend(a.shorts().into_iter().map(|c| format!("-{c}")));
    }
    for (_, f) in spec.structs[st].flats() {
        names(spec, f, out);
    }
    if let Some((_, en, _)) = spec.structs[st].sub() {
        for v in &spec.enums[en].variants {
            if let Some(s) = v.body.st() {
                names(spec, s, out);
            }
        }
    }
}

/// Lines on which the crates are documented to differ, or whose outcome clap leaves open.
fn excluded(u: &Unit, argv: &[OsString], res: &Res, t: &Trace) -> Option<&'static str> {
    let spec = &u.specs[0];
    let nums: Vec<&Arg> = spec
        .structs
        .iter()
        .flat_map(|s| s.args())
        .map(|(_, a)| a)
        .filter(|a| a.hyphen == Hyphen::Num)
        .collect();
    let unsigned = spec.structs.iter().flat_map(|s| s.args()).any(|(_, a)| a.ty == Ty::U8);
    for (i, a) in argv.iter().enumerate().skip(1) {
        let b = a.as_bytes();
        // clap reads an `i64` for small integers, palc calls `u8::from_str`.
        if unsigned && b.windows(2).any(|w| w == b"-0") {
            return Some("minus zero");
        }
        // palc answers help in spite of a value.
        if b.starts_with(b"--help=") || (b.starts_with(b"-") && b.windows(2).any(|w| w == b"h=")) {
            return Some("help with a value");
        }
        // clap takes all number syntax for a negative number, palc only digits.
        if b.len() > 1
            && b[0] == b'-'
            && b[1..].iter().any(|c| c.is_ascii_digit() || *c == b'.')
            && !b[1..].iter().all(u8::is_ascii_digit)
            && let Some(prev) = argv[i - 1].to_str().and_then(|p| p.strip_prefix('-'))
            && nums.iter().any(|n| {
                n.longs().iter().any(|l| prev.strip_prefix('-') == Some(l))
                    || n.shorts().iter().any(|c| !prev.starts_with('-') && prev.ends_with(*c))
            })
        {
            return Some("number syntax");
        }
    }
    // A global option given at several levels: palc rejects or appends, clap takes one level's.
    for (i, o) in t.occs.iter().enumerate() {
        if t.occs[..i]
            .iter()
            .any(|p| p.owner == o.owner && p.field == o.field && p.level != o.level)
        {
            return Some("global at several levels");
        }
    }
    // palc prefers subcommands over positionals everywhere, clap not within a list of positionals.
    if t.list_then_sub {
        return Some("subcommand after a list");
    }
    if let Res::Err(es) = res
        && es
            .iter()
            .any(|e| e.kind == EK::MissingEq && e.desc.as_ref().is_some_and(|d| d.ends_with(']')))
    {
        // `-oa` for an optional value: clap goes on with the short flag `a`.
        return Some("text glued to an optional value");
    }
    None
}

pub fn judge(
    u: &Unit,
    fns: &[RunFn],
    argv: &[OsString],
    res: &Res,
    t: &Trace,
    out: Result<Out, String>,
    rec: &mut Rec,
) -> Result<(), Fail> {
    if argv.is_empty() || excluded(u, argv, res, t).is_some() {
        rec.mode = "excluded";
        rec.nontrivial = false;
        return Ok(());
    }
    let other = call(fns[1], argv);
    rec.calls += 1;
    let ok = match (&out, &other) {
        (Ok(Out::Ok(v)), Ok(Out::Ok(w))) => v == w,
        (Ok(Out::Err { .. }), Ok(Out::Err { .. })) => true,
        (Ok(Out::Help(_)), Ok(Out::Help(_))) => true,
        // clap reports some errors only after the rest of the line.
        (Ok(Out::Help(_)), Ok(Out::Err { .. })) | (Ok(Out::Err { .. }), Ok(Out::Help(_))) => true,
        (_, Err(p)) if std::env::var("CLAP_PANICS").is_err() => {
            let _ = p;
            rec.mode = "clap_panics";
            rec.nontrivial = false;
            true
        }
        _ => false,
    };
    if ok {
        return Ok(());
    }
    Err(Fail {
        argv: argv.to_vec(),
        why: "palc and clap differ".into(),
        expected: format!("clap: {}", text(&other)),
        actual: format!("palc: {}", text(&out)),
        by_argv: true,
    })
}
