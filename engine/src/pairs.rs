//! Definitions and command lines that must be equivalent to others.
use crate::model::*;
use crate::run::Unit;
use crate::spec::*;
use crate::src::Src;
use crate::types::*;
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;

pub const ADDED: &str = "zz_unrelated";
pub const ADDED_SUB: &str = "zz_unrelated_sub";
const WRAP: &str = "zz-wrap";

/// Make all names explicit, so that the identifier can change freely.
pub fn pin(a: &mut Arg) {
    if a.long == Some(None) {
        a.long = Some(a.long_name());
    }
    if a.short == Some(None) {
        a.short = Some(a.short_name());
    }
    if a.value_name.is_none() {
        a.value_name = Some(a.value_name());
    }
}

/// `[with flattened structs, all inline]`
pub fn inline_flats(mut a: Spec, collide: bool) -> Option<Vec<Spec>> {
    if collide {
        return if a.structs.iter().any(|s| s.flats().next().is_some()) {
            Some(vec![a])
        } else {
            None
        };
    }
    if !a.structs.iter().any(|s| s.flats().next().is_some()) {
        return None;
    }
    // Unique identifiers within each tree.
    let is_flat: HashSet<usize> =
        a.structs.iter().flat_map(|s| s.flats().map(|(_, f)| f).collect::<Vec<_>>()).collect();
    let roots: Vec<usize> = (0..a.structs.len()).filter(|i| !is_flat.contains(i)).collect();
    for r in roots {
        let mut seen = HashSet::new();
        let mut todo = vec![r];
        while let Some(s) = todo.pop() {
            todo.extend(a.structs[s].flats().map(|(_, f)| f));
            for f in &mut a.structs[s].fields {
                if let Field::Arg(arg) = f {
                    let mut n = 0;
                    while !seen.insert(arg.plain_ident()) {
                        pin(arg);
                        n += 1;
                        arg.words.push(format!("dup{n}"));
                        arg.id = None;
                    }
                } else {
                    seen.insert(f.plain());
                }
            }
        }
    }
    let mut b = a.clone();
    for i in 0..b.structs.len() {
        b.structs[i].fields = inlined(&a, i);
        b.structs[i].inline |= is_flat.contains(&i);
    }
    Some(vec![a, b])
}

fn inlined(a: &Spec, st: usize) -> Vec<Field> {
    let mut out: Vec<Field> = vec![];
    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    let mut own = vec![];
    for (i, f) in a.structs[st].fields.iter().enumerate() {
        match f {
            Field::Flat { st, .. } => {
                let base = out.len();
                for mut g in inlined(a, *st) {
                    if let Field::Arg(x) = &mut g {
                        for r in x.requires.iter_mut().chain(&mut x.conflicts) {
                            *r += base;
                        }
                    }
                    out.push(g);
                }
            }
            _ => {
                map.insert(i, out.len());
                own.push(out.len());
                out.push(f.clone());
            }
        }
    }
    for k in own {
        if let Field::Arg(x) = &mut out[k] {
            for r in x.requires.iter_mut().chain(&mut x.conflicts) {
                *r = map[r];
            }
        }
    }
    out
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for k in (1..v.len()).rev() {
        let j = s.below(k + 1);
        v.swap(k, j);
    }
}

/// `[original, reordered and extended]`
pub fn reorder(a: Spec, s: &mut Src) -> Vec<Spec> {
    let mut b = a.clone();
    for st in &mut b.structs {
        let n = st.fields.len();
        let mut order: Vec<usize> = (0..n).collect();
        shuffle(s, &mut order);
        let is_pos = |i: usize| st.fields[i].arg().is_some_and(|a| !a.named);
        let mut pos = (0..n).filter(|&i| is_pos(i)).collect::<Vec<_>>().into_iter();
        let order: Vec<usize> =
            order.into_iter().map(|i| if is_pos(i) { pos.next().unwrap() } else { i }).collect();
        let mut back = vec![0; n];
        for (new, &old) in order.iter().enumerate() {
            back[old] = new;
        }
        let mut fields: Vec<Field> = order.iter().map(|&i| st.fields[i].clone()).collect();
        for f in &mut fields {
            if let Field::Arg(x) = f {
                for r in x.requires.iter_mut().chain(&mut x.conflicts) {
                    *r = back[*r];
                }
            }
        }
        st.fields = fields;
    }
    for e in &mut b.enums {
        shuffle(s, &mut e.variants);
    }
    // Something that the lines do not mention.
    if s.pct(75) {
        let k = s.below(b.structs.len());
        let flat_only = b.structs.iter().any(|x| x.flats().any(|(_, f)| f == k));
        let kind =
            *s.pick(&[Kind::Opt, Kind::Bool, Kind::Vec, Kind::OptVec, Kind::OptOpt, Kind::Value]);
        let mut x = Arg::new(
            &["zz", "unrelated"],
            kind,
            if kind == Kind::Bool { Ty::Bool } else { Ty::Str },
        );
        x.named = true;
        x.long = Some(None);
        x.req_eq = kind == Kind::OptOpt || s.pct(30);
        if s.pct(50) {
            x.short = Some(Some('⊗'));
        }
        if kind == Kind::Value || (kind != Kind::Bool && s.pct(30)) {
            x.dflt = Some(Dflt::Str("zz".into()));
        }
        x.global = !flat_only && s.pct(40);
        let at = s.below(b.structs[k].fields.len() + 1);
        for f in &mut b.structs[k].fields {
            if let Field::Arg(x) = f {
                for r in x.requires.iter_mut().chain(&mut x.conflicts) {
                    if *r >= at {
                        *r += 1;
                    }
                }
            }
        }
        b.structs[k].fields.insert(at, Field::Arg(x));
    }
    let alone = |k: usize, b: &Spec| {
        b.structs[k].sub().is_none() && !b.structs.iter().any(|x| x.flats().any(|(_, f)| f == k))
    };
    let new: Vec<usize> = (0..b.structs.len()).filter(|&k| alone(k, &b)).collect();
    let unit = |w: &[&str]| Variant {
        words: w.iter().map(|w| w.to_string()).collect(),
        id: None,
        body: Body::Unit,
        doc: vec![],
        after: None,
    };
    if !new.is_empty() && s.pct(40) {
        // A first subcommand.
        let k = *s.pick(&new);
        let en = b.enums.len();
        b.enums.push(SubEnum {
            name: "ZzUnrelatedSub".into(),
            variants: vec![unit(&["zz", "unrelated"]), unit(&["zz", "x"])],
        });
        let at = b.structs[k].fields.len();
        b.structs[k].fields.insert(at, Field::Sub { ident: ADDED_SUB.into(), en, optional: true });
    } else if !b.enums.is_empty() && s.pct(75) {
        let k = s.below(b.enums.len());
        let at = s.below(b.enums[k].variants.len() + 1);
        b.enums[k].variants.insert(at, unit(&["zz", "unrelated", "cmd"]));
    }
    vec![a, b]
}

pub fn strip_added(v: Val) -> Val {
    match v {
        Val::Struct(fs) => Val::Struct(
            fs.into_iter()
                .filter(|(n, _)| n != ADDED && n != ADDED_SUB)
                .map(|(n, v)| (n, strip_added(v)))
                .collect(),
        ),
        Val::Variant(n, v) => match strip_added(*v) {
            Val::Struct(fs) if fs.is_empty() => Val::Variant(n, Box::new(Val::Unit)),
            v => Val::Variant(n, Box::new(v)),
        },
        Val::Some(v) => Val::Some(Box::new(strip_added(*v))),
        v => v,
    }
}

/// `[original, variants written in the other ways]`
pub fn variants(a: Spec, s: &mut Src) -> Vec<Spec> {
    let mut b = a.clone();
    let mut n = 0;
    for e in 0..b.enums.len() {
        for v in 0..b.enums[e].variants.len() {
            if !s.pct(85) {
                continue;
            }
            let var = b.enums[e].variants[v].clone();
            match var.body {
                Body::Unit => {
                    n += 1;
                    b.structs.push(Struct {
                        name: format!("WasUnit{n}"),
                        doc: var.doc.clone(),
                        after: var.after.clone(),
                        inline: s.pct(50),
                        ..Default::default()
                    });
                    let k = b.structs.len() - 1;
                    let w = &mut b.enums[e].variants[v];
                    w.body = if b.structs[k].inline { Body::Inline(k) } else { Body::Newtype(k) };
                    w.doc.clear();
                    w.after = None;
                }
                Body::Newtype(k) | Body::Inline(k) => {
                    let st = &mut b.structs[k];
                    if st.fields.is_empty() && st.long_about.is_none() {
                        st.inline = true;
                        let w = &mut b.enums[e].variants[v];
                        w.body = Body::Unit;
                        w.doc = st.doc.clone();
                        w.after = st.after.clone();
                    } else {
                        st.inline = !st.inline;
                        b.enums[e].variants[v].body =
                            if st.inline { Body::Inline(k) } else { Body::Newtype(k) };
                    }
                }
            }
        }
    }
    vec![a, b]
}

/// `[original, the original as a (nested) subcommand]`
pub fn embed(a: Spec, s: &mut Src) -> Vec<Spec> {
    let mut b = a.clone();
    let depth = s.range(1, 3);
    let mut top = b.structs[0].clone();
    top.name = if s.pct(50) { "InnerP".into() } else { "Inner".into() };
    top.inline = top.name == "Inner" && s.pct(40);
    b.structs.push(top);
    let mut body = b.structs.len() - 1;
    for d in (0..depth).rev() {
        let inline = b.structs[body].inline;
        let mut variants = vec![Variant {
            words: vec!["zz".into(), "wrap".into()],
            id: None,
            body: if inline { Body::Inline(body) } else { Body::Newtype(body) },
            doc: vec![],
            after: None,
        }];
        if s.pct(50) {
            variants.insert(
                s.below(2),
                Variant {
                    words: vec!["other".into(), "thing".into()],
                    id: None,
                    body: Body::Unit,
                    doc: vec![],
                    after: None,
                },
            );
        }
        b.enums.push(SubEnum { name: format!("Wrap{d}"), variants });
        let st = Struct {
            name: if d == 0 { format!("Embed{depth}") } else { format!("Mid{d}") },
            fields: vec![Field::Sub {
                ident: "sub".into(),
                en: b.enums.len() - 1,
                optional: s.pct(50),
            }],
            ..Default::default()
        };
        if d == 0 {
            b.structs[0] = st;
        } else {
            b.structs.push(st);
            body = b.structs.len() - 1;
        }
    }
    vec![a, b]
}

/// The line for the second definition of a pair.
pub fn embed_argv(u: &Unit, argv: &[OsString]) -> (Vec<OsString>, usize) {
    let name = &u.specs[1].structs[0].name;
    let d: usize = name.strip_prefix("Embed").map_or(0, |d| d.parse().unwrap());
    let mut v = argv.to_vec();
    if !v.is_empty() {
        for _ in 0..d {
            v.insert(1, WRAP.into());
        }
    }
    (v, d)
}

pub fn comparable(r: &Result<Out, String>, strip: usize) -> String {
    match r {
        Ok(Out::Ok(v)) => {
            let mut v = v.clone().normal();
            for _ in 0..strip {
                let Val::Struct(fs) = &v else {
                    return format!("not wrapped: {v:?}");
                };
                let mut x = &fs[0].1;
                if let Val::Some(y) = x {
                    x = y;
                }
                let Val::Variant(_, y) = x else {
                    return format!("not wrapped: {v:?}");
                };
                let inner = (**y).clone();
                v = if inner == Val::Unit { Val::Struct(vec![]) } else { inner };
            }
            format!("Ok({v:?})")
        }
        Ok(Out::Help(h)) => {
            let mut h = h.clone();
            if strip > 0 {
                h = h.replacen(&format!(" {WRAP}").repeat(strip), "", 1);
            }
            format!("Help({h})")
        }
        r => crate::checks::text(r),
    }
}

/// An equivalent line, and what was changed.
pub fn respell(
    m: &Model,
    argv: &[OsString],
    t: &Trace,
    res: &Res,
    aux: &[u64],
) -> Option<(Vec<OsString>, &'static str)> {
    if t.occs.is_empty() {
        return None;
    }
    let mut s = Src::new(aux);
    let per_tok = |tok: usize| t.occs.iter().filter(|o| o.tok == tok).count();
    let tok_bytes = |i: usize| argv[i].as_bytes().to_vec();
    let arg = |o: &Occ| m.spec.structs[o.st].fields[o.field].arg().unwrap();
    let span = |o: &Occ| if o.form == Form::Sep { 2 } else { 1 };
    for _ in 0..6 {
        let o = s.pick(&t.occs).clone();
        let a = arg(&o);
        let mut v = argv.to_vec();
        let how = match s.below(6) {
            0..=2 => {
                // Another name and another form, for a token with one occurrence.
                if per_tok(o.tok) != 1 {
                    continue;
                }
                let mut names: Vec<(Option<char>, String)> =
                    a.longs().into_iter().map(|l| (None, l)).collect();
                names.extend(a.shorts().into_iter().map(|c| (Some(c), c.to_string())));
                let (short, n) = s.pick(&names).clone();
                let mut tok =
                    format!("{}{n}", if short.is_some() { "-" } else { "--" }).into_bytes();
                let mut next = None;
                if let Some(val) = &o.value {
                    match s.below(3) {
                        0 => {
                            tok.push(b'=');
                            tok.extend(val);
                        }
                        1 if !a.req_eq && a.kind.takes_value() => next = Some(os(val)),
                        _ if short.is_some()
                            && !val.is_empty()
                            && val[0] != b'='
                            && !a.req_eq
                            && a.kind.takes_value() =>
                        {
                            tok.extend(val)
                        }
                        _ => {
                            tok.push(b'=');
                            tok.extend(val);
                        }
                    }
                }
                v.splice(o.tok..o.tok + span(&o), [os(&tok)].into_iter().chain(next));
                "name or form"
            }
            3 => {
                // Split a bundle.
                if o.short.is_none() || o.at <= 1 {
                    continue;
                }
                let b = tok_bytes(o.tok);
                let right = [b"-", &b[o.at..]].concat();
                v[o.tok] = os(&b[..o.at]);
                v.insert(o.tok + 1, os(&right));
                "split bundle"
            }
            4 => {
                // Join two clusters.
                let Some(last) = t.occs.iter().filter(|x| x.tok == o.tok).last() else {
                    continue;
                };
                if last.short.is_none() || last.form != Form::Bare || arg(last).kind != Kind::Bool {
                    continue;
                }
                let Some(p) = t.occs.iter().find(|x| x.tok == o.tok + 1) else {
                    continue;
                };
                if p.short.is_none() || p.level != o.level {
                    continue;
                }
                let b = tok_bytes(o.tok + 1);
                let joined = [&tok_bytes(o.tok)[..], &b[1..]].concat();
                v[o.tok] = os(&joined);
                v.remove(o.tok + 1);
                "join clusters"
            }
            _ => {
                // Swap with the next occurrence or positional.
                if per_tok(o.tok) != 1 {
                    continue;
                }
                let n1 = span(&o);
                let at2 = o.tok + n1;
                let n2 = if let Some(p) = t.occs.iter().find(|x| x.tok == at2) {
                    if per_tok(at2) != 1
                        || p.level != o.level
                        || (p.owner == o.owner && p.field == o.field)
                    {
                        continue;
                    }
                    span(p)
                } else if t.pos.iter().any(|p| p.0 == at2) && t.greedy_from.is_none_or(|g| at2 < g)
                {
                    1
                } else {
                    continue;
                };
                v[o.tok..at2 + n2].rotate_left(n1);
                "swap"
            }
        };
        if v == argv {
            continue;
        }
        // Only what the documented rules call equivalent.
        if m.run(&v).0 == *res {
            return Some((v, how));
        }
    }
    None
}
