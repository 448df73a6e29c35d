//! Writes the workspace of generated definitions and their runner.
use crate::checks::{Check, Oracle};
use crate::emit::Emit;
use crate::hostile;
use crate::run::Unit;
use std::fmt::Write as _;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dep {
    Palc,
    NoHelp,
    Clap,
}

pub struct Module {
    pub unit: usize,
    pub first: usize,
    pub dep: Dep,
    pub src: String,
    pub glue: &'static [&'static str],
    pub top: String,
    pub edition: &'static str,
}

pub fn modules(chk: &Check, units: &[Unit]) -> Vec<Module> {
    let mut out = vec![];
    for (i, u) in units.iter().enumerate() {
        let palc = |k: usize| Emit::palc().module(&u.specs[k]);
        let m = |first: usize, dep, src, glue| {
            let top = u.specs[first.min(u.specs.len() - 1)].structs[0].name.clone();
            Module { unit: i, first, dep, src, glue, top, edition: "2024" }
        };
        match chk.oracle {
            Oracle::Total => out.push(m(0, Dep::Palc, palc(0), &["go", "go_refs", "go_str"])),
            Oracle::NoHelp => {
                out.push(m(0, Dep::Palc, palc(0), &["go"]));
                out.push(m(1, Dep::NoHelp, palc(0), &["go"]));
            }
            Oracle::Clap => {
                out.push(m(0, Dep::Palc, palc(0), &["go"]));
                out.push(m(1, Dep::Clap, Emit::clap().module(&u.specs[0]), &["go"]));
            }
            Oracle::Hostile => {
                let env = hostile::Env::parse(&u.tag).unwrap();
                out.push(m(0, Dep::Palc, palc(0), &["go"]));
                let mut n = m(1, Dep::Palc, hostile::module(&u.specs[1], &env), &["zq_entry"]);
                n.edition = hostile::EDITIONS[env.edition];
                out.push(n);
                out.push(m(2, Dep::Palc, hostile::strict(&u.specs[0]), &[]));
            }
            Oracle::Process => out.push(m(0, Dep::Palc, palc(0), &["go", "go_process"])),
            Oracle::Help => out.push(m(0, Dep::Palc, palc(0), &["go", "go_render"])),
            _ => {
                for k in 0..u.specs.len() {
                    out.push(m(k, Dep::Palc, palc(k), &["go"]));
                }
            }
        }
    }
    out
}

const GLUE: &str = r#"
#[allow(unused)]
fn done<T: ToVal>(r: ::std::result::Result<T, ::palc::Error>) -> Out {
    match r {
        Ok(v) => Out::Ok(v.to_val()),
        Err(e) => {
            let msg = e.to_string();
            assert!(!format!("{e:?}").is_empty());
            let source = ::std::error::Error::source(&e).map(::engine::types::source_text);
            INTO_HELP
        }
    }
}
#[allow(unused)]
fn go<T: ::palc::Parser + ToVal>(it: &mut dyn Iterator<Item = OsString>) -> Out {
    done(T::try_parse_from(it))
}
#[allow(unused)]
fn go_refs<T: ::palc::Parser + ToVal>(it: &mut dyn Iterator<Item = OsString>) -> Out {
    let v: Vec<OsString> = it.collect();
    done(T::try_parse_from(v.iter().filter(|_| true).map(|s| s.as_os_str())))
}
#[allow(unused)]
fn go_str<T: ::palc::Parser + ToVal>(it: &mut dyn Iterator<Item = OsString>) -> Out {
    let v: Vec<OsString> = it.collect();
    let v: Vec<String> = v.iter().map(|s| s.to_string_lossy().into_owned()).collect();
    done(T::try_parse_from(v))
}
#[allow(unused)]
fn go_process<T: ::palc::Parser + ToVal>(_: &mut dyn Iterator<Item = OsString>) -> Out {
    Out::Ok(T::parse().to_val())
}
"#;
const RENDER_GLUE: &str = r#"
#[allow(unused)]
fn go_render<T: ::palc::Parser + ToVal>(it: &mut dyn Iterator<Item = OsString>) -> Out {
    Out::Help(T::render_long_help(it.next().unwrap().into_string().unwrap()))
}
"#;

const CLAP_GLUE: &str = r#"
fn go<T: ::clap::Parser + ToVal>(it: &mut dyn Iterator<Item = OsString>) -> Out {
    match T::try_parse_from(it) {
        Ok(v) => Out::Ok(v.to_val()),
        Err(e) if e.kind() == ::clap::error::ErrorKind::DisplayHelp => Out::Help(e.to_string()),
        Err(e) => Out::Err { msg: format!("{:?}: {e}", e.kind()), source: None },
    }
}
"#;

pub fn write(chk: &Check, units: &[Unit], dir: &Path, engine: &str, repo: &str) {
    let mods = modules(chk, units);
    let mut shards: Vec<(Dep, usize, Vec<&Module>)> = vec![];
    let kinds = [Dep::Palc, Dep::NoHelp, Dep::Clap]
        .into_iter()
        .flat_map(|d| hostile::EDITIONS.map(|e| (d, e)));
    for (dep, edition) in kinds {
        let of: Vec<&Module> =
            mods.iter().filter(|m| m.dep == dep && m.edition == edition).collect();
        if of.is_empty() {
            continue;
        }
        // Bounded, for the memory of a compiler.
        let n = of.len().min((of.len() / 40).max(16));
        let from = shards.len();
        shards.extend((0..n).map(|_| (dep, 0, vec![])));
        let mut of = of;
        of.sort_by_key(|m| std::cmp::Reverse(m.src.len()));
        for m in of {
            let s = shards[from..].iter_mut().min_by_key(|s| s.1).unwrap();
            s.1 += m.src.len();
            s.2.push(m);
        }
    }
    let put = |p: &str, s: &str| {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        if std::fs::read_to_string(&p).is_ok_and(|o| o == s) {
            return;
        }
        std::fs::write(p, s).unwrap();
    };
    let mut members = String::new();
    let mut run_deps = String::new();
    let mut run_src = String::from("fn main() { engine::run::main(&[");
    for (k, (dep, _, ms)) in shards.iter().enumerate() {
        let edition = ms[0].edition;
        let dep_line = match dep {
            Dep::Palc => format!("palc = {{ path = {repo:?} }}"),
            Dep::NoHelp => {
                "palc = { package = \"palc-nohelp\", path = \"../palc-nohelp\" }".to_string()
            }
            Dep::Clap => "clap = { version = \"4\", features = [\"derive\"] }".to_string(),
        };
        put(
            &format!("s{k}/Cargo.toml"),
            &format!(
                "[package]\nname = \"s{k}\"\nversion = \"0.1.0\"\nedition = {edition:?}\ndescription = \"generated\"\n\n[dependencies]\nengine = {{ path = {engine:?} }}\n{dep_line}\n"
            ),
        );
        let mut src = String::from(
            "#![allow(warnings, non_snake_case, non_camel_case_types, uncommon_codepoints, mixed_script_confusables, confusable_idents, clippy::all)]\nuse ::engine::types::{Out, RunFn, ToVal};\nuse ::std::ffi::OsString;\n",
        );
        match dep {
            Dep::Clap => src.push_str(CLAP_GLUE),
            Dep::Palc => src.push_str(&[GLUE, RENDER_GLUE].concat().replace(
                "INTO_HELP",
                "match e.try_into_help() { Ok(h) => Out::Help(h), Err(e) => { assert_eq!(e.to_string(), msg); Out::Err { msg, source } } }",
            )),
            Dep::NoHelp => src.push_str(&GLUE.replace("INTO_HELP", "Out::Err { msg, source }")),
        }
        let mut fns = String::new();
        for m in ms {
            let _ = writeln!(src, "pub mod u{}_{} {{\n{}}}", m.unit, m.first, m.src);
            for (j, g) in m.glue.iter().enumerate() {
                if *g == "zq_entry" {
                    let _ = writeln!(
                        fns,
                        "    ({}, {}, u{}_{}::zq_entry),",
                        m.unit, m.first, m.unit, m.first
                    );
                    continue;
                }
                let name = format!("u{}_{}::{}", m.unit, m.first, m.top);
                let _ = writeln!(fns, "    ({}, {}, {g}::<{name}>),", m.unit, m.first + j);
            }
        }
        let _ = writeln!(src, "pub static FNS: &[(usize, usize, RunFn)] = &[\n{fns}];");
        put(&format!("s{k}/src/lib.rs"), &src);
        let _ = write!(members, "\"s{k}\", ");
        let _ = writeln!(run_deps, "s{k} = {{ path = \"../s{k}\" }}");
        let _ = write!(run_src, "s{k}::FNS, ");
    }
    run_src.push_str("]) }\n");
    put(
        "runner/Cargo.toml",
        &format!(
            "[package]\nname = \"runner\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[dependencies]\nengine = {{ path = {engine:?} }}\n{run_deps}"
        ),
    );
    put("runner/src/main.rs", &run_src);
    put(
        "Cargo.toml",
        &format!(
            "[workspace]\nresolver = \"2\"\nmembers = [{members}\"runner\"]\n\n[profile.dev]\ndebug = 0\nincremental = false\n\n[profile.dev.package.\"*\"]\nopt-level = 1\n"
        ),
    );
}
