//! What a help text has to contain, independent of indentation, blank lines and the order of options.
use crate::spec::*;

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn lines(s: &str) -> Vec<String> {
    s.lines().map(norm).filter(|l| !l.is_empty()).collect()
}

/// The default as shown.
pub fn shown_default(a: &Arg, spec: &Spec) -> Option<String> {
    let d = a.dflt.as_ref()?;
    let raw = crate::model::dflt_raw(a, d, spec);
    Some(match (d, a.ty) {
        (Dflt::Str(_), _) => raw,
        (_, Ty::F64) => raw.parse::<f64>().map(|x| x.to_string()).unwrap_or(raw),
        _ => raw,
    })
}

fn arg_block(a: &Arg, spec: &Spec) -> Vec<String> {
    let mut b = vec![norm(&a.desc())];
    b.extend(lines(&doc_text(&a.doc)));
    if let Some(d) = shown_default(a, spec) {
        b.extend(lines(&format!("[default: {d}]")));
    }
    b
}

fn collect<'a>(spec: &'a Spec, st: usize, named: &mut Vec<&'a Arg>, pos: &mut Vec<&'a Arg>) {
    let s = &spec.structs[st];
    named.extend(s.args().filter(|(_, a)| a.named).map(|(_, a)| a));
    pos.extend(s.positionals().into_iter().map(|f| s.fields[f].arg().unwrap()));
    for (_, f) in s.flats() {
        collect(spec, f, named, pos);
    }
}

/// The path in the usage line must be this one.
pub fn check_path(text: &str, path: &[String]) -> Result<(), String> {
    let prefix = format!("Usage: {}", path.join(" "));
    for (i, _) in text.match_indices(&prefix) {
        let rest = &text[i + prefix.len()..];
        if (i == 0 || text[..i].ends_with('\n'))
            && (rest.starts_with('\n')
                || rest.starts_with(" -")
                || rest.starts_with(" [")
                || rest.starts_with(" <"))
        {
            return Ok(());
        }
    }
    Err(format!("no usage line for `{prefix}`"))
}

pub fn check(
    spec: &Spec,
    st: Option<usize>,
    unit: Option<(usize, usize)>,
    path: &[String],
    text: &str,
) -> Result<(), String> {
    let ls = lines(text);
    let mut i = 0;
    let (about, after) = match (st, unit) {
        (Some(s), _) => (spec.structs[s].about(), spec.structs[s].after.clone()),
        (None, Some((e, v))) => {
            let v = &spec.enums[e].variants[v];
            (doc_text(&v.doc), v.after.clone())
        }
        _ => (String::new(), None),
    };
    for a in lines(&about) {
        if ls.get(i) != Some(&a) {
            return Err(format!("about line `{a}` expected, found {:?}", ls.get(i)));
        }
        i += 1;
    }
    let (mut named, mut pos) = (vec![], vec![]);
    if let Some(s) = st {
        collect(spec, s, &mut named, &mut pos);
    }
    // Usage.
    let Some(usage) = ls.get(i) else {
        return Err("no usage line".into());
    };
    i += 1;
    let prefix = norm(&format!("Usage: {}", path.join(" ")));
    let Some(rest) = usage.strip_prefix(&prefix) else {
        return Err(format!("usage `{usage}` does not start with `{prefix}`"));
    };
    let rest = format!("{rest} ");
    // With and without the short name.
    let forms = |a: &Arg| {
        let d = norm(&a.desc());
        let short = match d.split_once(", --") {
            Some((_, l)) => format!("--{l}"),
            None => d.clone(),
        };
        (d, short)
    };
    for a in &named {
        let (d, short) = forms(a);
        let there = rest.contains(&format!(" {d} ")) || rest.contains(&format!(" {short} "));
        if a.is_required() && !a.hide && !there {
            return Err(format!("required `{d}` missing in usage `{usage}`"));
        }
    }
    let mut at = 0;
    for a in &pos {
        let d = norm(&a.desc());
        if a.is_required() && !a.hide {
            let d2 = if a.last { format!(" -- {d} ") } else { format!(" {d} ") };
            match rest[at..].find(&d2) {
                Some(p) => at += p + d2.len() - 1,
                None => {
                    return Err(format!("required `{d2}` missing or misplaced in usage `{usage}`"));
                }
            }
        }
    }
    for a in named.iter().chain(&pos) {
        let d = norm(&a.desc());
        // Others may look the same.
        let look = format!(" {d}");
        let count =
            rest.match_indices(&look).filter(|(i, m)| rest[i + m.len()..].starts_with(' ')).count();
        let visible = named.iter().chain(&pos).filter(|b| {
            let (x, y) = forms(b);
            !b.hide && (x == d || y == d || x.ends_with(&format!(" {d}")))
        });
        if a.hide && !d.is_empty() && count > visible.count() {
            return Err(format!("hidden `{d}` in usage `{usage}`"));
        }
    }
    let optional = named.iter().any(|a| !a.is_required() && !a.hide);
    if optional && !rest.contains(" [OPTIONS] ") {
        return Err(format!("no [OPTIONS] in usage `{usage}`"));
    }
    if !optional && rest.contains(" [OPTIONS] ") {
        return Err(format!("[OPTIONS] without any to choose in usage `{usage}`"));
    }
    let sub = st.and_then(|s| spec.structs[s].sub());
    let has = |t: &str| rest.contains(&format!(" {t} "));
    match sub {
        Some((_, en, opt)) => {
            if !spec.enums[en].variants.is_empty()
                && !has(if opt { "[COMMAND]" } else { "<COMMAND>" })
            {
                return Err(format!("subcommand missing in usage `{usage}`"));
            }
        }
        None => {
            if has("[COMMAND]") || has("<COMMAND>") {
                return Err(format!("unexpected subcommand in usage `{usage}`"));
            }
        }
    }
    // Sections.
    let mut section =
        |title: &str, mut blocks: Vec<Vec<String>>, ordered: bool| -> Result<(), String> {
            if blocks.is_empty() {
                return Ok(());
            }
            if ls.get(i).map(String::as_str) != Some(title) {
                return Err(format!("section `{title}` expected, found {:?}", ls.get(i)));
            }
            i += 1;
            while !blocks.is_empty() {
                let fits = |b: &Vec<String>| ls[i.min(ls.len())..].starts_with(b);
                let best = if ordered {
                    if fits(&blocks[0]) { Some(0) } else { None }
                } else {
                    (0..blocks.len()).filter(|&k| fits(&blocks[k])).max_by_key(|&k| blocks[k].len())
                };
                let Some(k) = best else {
                    return Err(format!(
                        "in section `{title}`, none of the expected entries {:?} is at {:?}",
                        blocks,
                        &ls[i.min(ls.len())..(i + 4).min(ls.len())]
                    ));
                };
                i += blocks[k].len();
                blocks.remove(k);
            }
            Ok(())
        };
    if let Some((_, en, _)) = sub {
        let blocks = spec.enums[en]
            .variants
            .iter()
            .map(|v| {
                let about = match v.body.st() {
                    Some(s) => spec.structs[s].about(),
                    None => doc_text(&v.doc),
                };
                vec![norm(&format!("{} {}", v.cmd(), about.split('\n').next().unwrap_or("")))]
            })
            .collect();
        section("Commands:", blocks, false)?;
    }
    section(
        "Arguments:",
        pos.iter().filter(|a| !a.hide).map(|a| arg_block(a, spec)).collect(),
        true,
    )?;
    section(
        "Options:",
        named.iter().filter(|a| !a.hide).map(|a| arg_block(a, spec)).collect(),
        false,
    )?;
    let rest = ls[i..].to_vec();
    let want = lines(after.as_deref().unwrap_or(""));
    if rest != want {
        return Err(format!("expected {want:?} at the end, found {rest:?}"));
    }
    Ok(())
}
