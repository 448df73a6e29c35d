//! The campaign driver: proptest generates and shrinks, this file counts and reports.
use crate::checks::{self, Check, Fail, Rec};
use crate::model::EV_NAMES;
use crate::spec::Spec;
use crate::src::fnv;
use crate::types::{Out, RunFn};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::HashSet;
use std::ffi::OsString;
use std::fmt::Write as _;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Unit {
    pub specs: Vec<Spec>,
    pub tag: String,
    pub index: usize,
}

impl Unit {
    /// How many words a line may need, roughly: the number of fields, up to a limit.
    fn size(&self) -> usize {
        self.specs[0].structs.iter().map(|s| s.fields.len()).sum::<usize>().min(300)
    }
}

/// How long each of the two stages of shrinking may take.
const SHRINK_SECS: u64 = 40;
/// A case that takes longer than this hangs.
const HANG_SECS: u64 = 90;

/// A deterministic word list for one definition.
pub fn draw(seed: u64, id: &str, unit: usize, salt: u64, n: usize) -> Vec<u64> {
    let mut runner = runner(seed, id, unit as u64, salt, 1);
    let strat = proptest::collection::vec(any::<u64>(), n..=n);
    proptest::strategy::ValueTree::current(&strat.new_tree(&mut runner).unwrap())
}

fn runner(seed: u64, id: &str, unit: u64, salt: u64, cases: u32) -> TestRunner {
    let mut key = [0u8; 32];
    for (i, c) in key.chunks_mut(8).enumerate() {
        let h = fnv(&[
            &seed.to_le_bytes(),
            id.as_bytes(),
            &unit.to_le_bytes(),
            &salt.to_le_bytes(),
            &[i as u8],
        ]);
        c.copy_from_slice(&h.to_le_bytes());
    }
    let cfg = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_shrink_time: 1000 * SHRINK_SECS as u32,
        max_global_rejects: u32::MAX,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key))
}

/// An iterator that notices when it is polled far too often.
struct Limited<'a> {
    it: std::slice::Iter<'a, OsString>,
    polls: usize,
    max: usize,
}
impl Iterator for Limited<'_> {
    type Item = OsString;
    fn next(&mut self) -> Option<OsString> {
        self.polls += 1;
        if self.polls > self.max {
            panic!(
                "the argument iterator was polled {} times for {} arguments",
                self.polls,
                self.it.len()
            );
        }
        self.it.next().cloned()
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SINCE: RefCell<Arc<Mutex<Option<Instant>>>> = RefCell::default();
    static TRACE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// Run the real parser. `Err` is a panic.
pub fn call(f: RunFn, argv: &[OsString]) -> Result<Out, String> {
    let mut it = Limited { it: argv.iter(), polls: 0, max: argv.len() * 2 + 100 };
    match catch_unwind(AssertUnwindSafe(|| f(&mut it))) {
        Ok(o) => Ok(o),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

fn note(unit: usize, argv: &[OsString]) {
    SINCE.with(|s| *s.borrow().lock().unwrap() = Some(Instant::now()));
    TRACE.with(|t| {
        if let Some(f) = &*t.borrow() {
            let s = format!("{unit} {}\n", hex_argv(argv));
            let _ =
                f.write_all_at(&[&(s.len() as u32).to_le_bytes()[..], s.as_bytes()].concat(), 0);
        }
    });
}

pub fn hex_argv(argv: &[OsString]) -> String {
    let mut s = String::new();
    for a in argv {
        s.push(',');
        for b in a.as_bytes() {
            let _ = write!(s, "{b:02x}");
        }
    }
    if s.is_empty() { "-".into() } else { s }
}

pub fn unhex_argv(s: &str) -> Vec<OsString> {
    if s == "-" {
        return vec![];
    }
    s[1..]
        .split(',')
        .map(|t| {
            OsString::from_vec(
                (0..t.len() / 2)
                    .map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap())
                    .collect(),
            )
        })
        .collect()
}

pub fn show(argv: &[OsString]) -> String {
    format!("{argv:?}")
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats {
    evals: u64,
    calls: u64,
    distinct: HashSet<u64>,
    ev: Vec<u64>,
    modes: std::collections::BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    ok: u64,
    err: u64,
    help: u64,
}

struct Found {
    unit: usize,
    words: Vec<u64>,
    aux: Vec<u64>,
    fail: Fail,
}

/// Deterministic minimization of an argument list.
fn ddmin(argv: Vec<OsString>, fails: &mut dyn FnMut(&[OsString]) -> bool) -> Vec<OsString> {
    let mut cur = argv;
    let end = Instant::now() + Duration::from_secs(SHRINK_SECS);
    let late = || Instant::now() > end;
    loop {
        let mut changed = false;
        let mut i = cur.len();
        while i > 0 && !late() {
            i -= 1;
            let mut t = cur.clone();
            t.remove(i);
            if fails(&t) {
                cur = t;
                changed = true;
            }
        }
        for i in 0..cur.len() {
            // Shorter tokens.
            let b = cur[i].as_bytes().to_vec();
            let mut k = b.len();
            while k > 0 && !late() {
                k -= 1;
                let mut c = cur[i].as_bytes().to_vec();
                if k >= c.len() {
                    continue;
                }
                c.remove(k);
                let mut t = cur.clone();
                t[i] = OsString::from_vec(c);
                if fails(&t) {
                    cur = t;
                    changed = true;
                }
            }
        }
        if !changed || late() {
            return cur;
        }
    }
}

fn campaign(
    chk: &Check,
    ui: usize,
    u: &Unit,
    fns: &[RunFn],
    seed: u64,
    cases: u32,
    st: &mut Stats,
) -> Option<Found> {
    let mut run = runner(seed, chk.id, ui as u64, 1, cases);
    let strat = (
        proptest::collection::vec(any::<u64>(), 4..110 + 6 * u.size()),
        proptest::collection::vec(any::<u64>(), 0..24),
    );
    let stc = RefCell::new(std::mem::take(st));
    let failed = RefCell::new(false);
    let last = RefCell::new(None::<Fail>);
    let res = run.run(&strat, |(words, aux)| {
        let mut rec = Rec::default();
        let r = one(chk, ui, u, fns, &words, &aux, &mut rec);
        if !*failed.borrow() {
            let mut st = stc.borrow_mut();
            st.evals += 1;
            st.calls += rec.calls;
            if st.ev.is_empty() {
                st.ev = vec![0; EV_NAMES.len()];
            }
            for i in 0..EV_NAMES.len() {
                st.ev[i] += rec.ev >> i & 1;
            }
            *st.modes.entry(rec.mode).or_default() += 1;
            match rec.outcome {
                0 => st.ok += 1,
                1 => st.err += 1,
                2 => st.help += 1,
                _ => {}
            }
            if rec.nontrivial {
                let new = st.distinct.insert(rec.key);
                if new && st.samples.len() < 2 && st.distinct.len() % 37 == 5 {
                    let s = format!("definition {ui}: {}", rec.sample);
                    st.samples.push(s);
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(f) => {
                *failed.borrow_mut() = true;
                let why = f.why.clone();
                *last.borrow_mut() = Some(f);
                Err(TestCaseError::fail(why))
            }
        }
    });
    *st = stc.into_inner();
    match res {
        Ok(()) => None,
        Err(TestError::Fail(_, (words, aux))) => {
            let mut rec = Rec::default();
            let fail = match one(chk, ui, u, fns, &words, &aux, &mut rec) {
                Err(f) => f,
                Ok(()) => last.into_inner().unwrap(),
            };
            // Shrink the line itself where the verdict depends on nothing else.
            let mut fail = fail;
            if fail.by_argv {
                let mut best = fail.clone();
                let argv = ddmin(fail.argv.clone(), &mut |a| match guarded(|| {
                    chk.judge(u, fns, a, &aux, &mut Rec::default())
                }) {
                    Err(f) => {
                        best = f;
                        true
                    }
                    Ok(()) => false,
                });
                if best.argv == argv {
                    fail = best;
                }
            }
            Some(Found { unit: ui, words, aux, fail })
        }
        Err(e) => {
            eprintln!("proptest aborted: {e}");
            std::process::exit(2);
        }
    }
}

fn guarded(f: impl FnOnce() -> Result<(), Fail>) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("internal panic: {}", PANIC.with(|p| p.borrow().clone()));
            std::process::exit(2);
        }
    }
}

fn one(
    chk: &Check,
    ui: usize,
    u: &Unit,
    fns: &[RunFn],
    words: &[u64],
    aux: &[u64],
    rec: &mut Rec,
) -> Result<(), Fail> {
    guarded(|| {
        let case = chk.generate(u, words);
        note(ui, &case.argv);
        rec.mode = case.mode;
        chk.test(u, fns, &case, aux, rec)
    })
}

/// The value of a parameter; `@PATH` is the content of a file.
fn arg(args: &[String], k: &str) -> Option<String> {
    let v = args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())?;
    match v.strip_prefix('@') {
        Some(p) => std::fs::read_to_string(p).ok(),
        None => Some(v),
    }
}

/// Entry point of the generated runner binaries.
pub fn main(shards: &[&[(usize, usize, RunFn)]]) {
    if let Some(unit) = std::env::var_os(crate::process::CHILD) {
        return crate::process::child(shards, unit.to_str().unwrap().parse().unwrap());
    }
    let args: Vec<String> = std::env::args().collect();
    let id = arg(&args, "--id").unwrap();
    let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    let out = arg(&args, "--out").unwrap();
    let chk = checks::by_id(&id).expect("unknown check");
    let units = chk.units(seed, thorough);
    let mut fns: Vec<Vec<Option<RunFn>>> = units.iter().map(|_| vec![]).collect();
    for s in shards {
        for &(u, k, f) in *s {
            if fns[u].len() <= k {
                fns[u].resize(k + 1, None);
            }
            fns[u][k] = Some(f);
        }
    }
    let fns: Vec<Vec<RunFn>> =
        fns.into_iter().map(|v| v.into_iter().map(|f| f.unwrap()).collect()).collect();
    install_hook();

    if let Some(spec) = arg(&args, "--argv") {
        // One line, for crash minimization and replay.
        let (u, a) = spec.split_once(' ').unwrap();
        let u: usize = u.parse().unwrap();
        let argv = unhex_argv(a.trim());
        let aux: Vec<u64> = arg(&args, "--aux")
            .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
            .unwrap_or_default();
        let mut bad = false;
        if let Err(f) = chk.judge(&units[u], &fns[u], &argv, &aux, &mut Rec::default()) {
            println!("{}\nexpected: {}\nactual:   {}", f.why, f.expected, f.actual);
            bad = true;
        }
        std::process::exit(bad as i32);
    }
    if let Some(spec) = arg(&args, "--words") {
        let (u, w) = spec.split_once(' ').unwrap();
        let u: usize = u.parse().unwrap();
        let (w, a) = w.split_once(';').unwrap_or((w, ""));
        let nums = |s: &str| -> Vec<u64> {
            s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
        };
        let mut bad = false;
        if let Err(f) = one(&chk, u, &units[u], &fns[u], &nums(w), &nums(a), &mut Rec::default()) {
            println!(
                "argv {}\n{}\nexpected: {}\nactual:   {}",
                show(&f.argv),
                f.why,
                f.expected,
                f.actual
            );
            bad = true;
        }
        std::process::exit(bad as i32);
    }

    let cases = chk.cases(thorough);
    let threads: usize = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(usize::MAX);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let total: Mutex<Vec<(usize, Stats)>> = Mutex::new(vec![]);
    let since: Vec<Arc<Mutex<Option<Instant>>>> = (0..threads).map(|_| Arc::default()).collect();
    let done = Arc::new(AtomicBool::new(false));
    {
        // A case that never ends is as good as a crash: the trace says which one.
        let (since, done) = (since.clone(), done.clone());
        std::thread::spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(500));
                let hangs = |s: &Arc<Mutex<Option<Instant>>>| {
                    s.lock().unwrap().is_some_and(|t| t.elapsed().as_secs() > HANG_SECS)
                };
                if since.iter().any(hangs) && !done.load(Ordering::SeqCst) {
                    eprintln!("a case hangs");
                    std::process::abort();
                }
            }
        });
    }
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, found, total) = (&next, &stop, &found, &total);
            let (units, fns, chk) = (&units, &fns, &chk);
            let tr = format!("{out}.trace{t}");
            let since = since[t].clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    TRACE.with(|x| *x.borrow_mut() = std::fs::File::create(&tr).ok());
                    SINCE.with(|x| *x.borrow_mut() = since.clone());
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= units.len() {
                            break;
                        }
                        if i > stop.load(Ordering::SeqCst) {
                            continue;
                        }
                        let mut st = Stats::default();
                        let r = campaign(chk, i, &units[i], &fns[i], seed, cases, &mut st);
                        total.lock().unwrap().push((i, st));
                        if let Some(f) = r {
                            stop.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push(f);
                        }
                    }
                    *since.lock().unwrap() = None;
                    TRACE.with(|x| {
                        if let Some(f) = &*x.borrow() {
                            let _ = f.set_len(0);
                        }
                    });
                })
                .unwrap();
        }
    });
    done.store(true, Ordering::SeqCst);
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.unit);
    let mut total = total.into_inner().unwrap();
    total.sort_by_key(|t| t.0);

    let mut j = String::from("{");
    let sum = |f: &dyn Fn(&Stats) -> u64| total.iter().map(|(_, s)| f(s)).sum::<u64>();
    let _ = write!(
        j,
        "\"evaluations\":{},\"parses\":{},\"distinct_nontrivial\":{},\"definitions\":{},\"accepted\":{},\"rejected\":{},\"help\":{},",
        sum(&|s| s.evals),
        sum(&|s| s.calls),
        sum(&|s| s.distinct.len() as u64),
        units.len(),
        sum(&|s| s.ok),
        sum(&|s| s.err),
        sum(&|s| s.help),
    );
    let mut ev = vec![];
    for (i, n) in EV_NAMES.iter().enumerate() {
        let c = sum(&|s| s.ev.get(i).copied().unwrap_or(0));
        if c > 0 {
            ev.push(format!("{}:{c}", js(n)));
        }
    }
    let _ = write!(j, "\"cases_with\":{{{}}},", ev.join(","));
    let mut modes = std::collections::BTreeMap::new();
    for (_, s) in &total {
        for (m, c) in &s.modes {
            *modes.entry(*m).or_insert(0) += c;
        }
    }
    let m: Vec<String> = modes.iter().map(|(m, c)| format!("{}:{c}", js(m))).collect();
    let _ = write!(j, "\"modes\":{{{}}},", m.join(","));
    let step = (total.len() / 10).max(1);
    let samples: Vec<String> = total
        .iter()
        .step_by(step)
        .flat_map(|(_, s)| s.samples.iter().take(1))
        .map(|s| js(&s.chars().take(600).collect::<String>()))
        .collect();
    let _ = write!(j, "\"samples\":[{}],", samples.join(","));
    let _ = write!(j, "\"rule\":{},\"level_of_units\":{},", js(&chk.rule()), js(chk.what));
    match found.first() {
        None => j.push_str("\"failure\":null"),
        Some(f) => {
            let u = &units[f.unit];
            let nums = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let _ = write!(
                j,
                "\"failure\":{{\"unit\":{},\"words\":{},\"aux\":{},\"by_argv\":{},\"argv_hex\":{},\"argv\":{},\"why\":{},\"expected\":{},\"actual\":{},\"definition\":{}}}",
                f.unit,
                js(&nums(&f.words)),
                js(&nums(&f.aux)),
                f.fail.by_argv,
                js(&hex_argv(&f.fail.argv)),
                js(&show(&f.fail.argv)),
                js(&f.fail.why),
                js(&f.fail.expected),
                js(&f.fail.actual),
                js(&u
                    .specs
                    .iter()
                    .map(|s| crate::emit::Emit::bare().module(s))
                    .collect::<Vec<_>>()
                    .join("\n// ---- second definition ----\n")),
            );
        }
    }
    j.push('}');
    std::fs::write(&out, j).unwrap();
    std::process::exit(if found.is_empty() { 0 } else { 1 });
}
