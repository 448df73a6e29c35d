//! `Parser::parse` in processes of their own.
use crate::checks::{self, Fail, Rec};
use crate::model::{Model, Res};
use crate::run::{Unit, call, show};
use crate::spec::Spec;
use crate::src::Src;
use crate::types::{Out, RunFn};
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

/// Tells the runner to be a program with this definition.
pub const CHILD: &str = "PALC_CHECK_CHILD";

pub fn child(shards: &[&[(usize, usize, RunFn)]], unit: usize) {
    let f = shards.iter().flat_map(|s| s.iter()).find(|f| f.0 == unit && f.1 == 1).unwrap().2;
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(45));
        std::process::abort();
    });
    let out = f(&mut std::iter::empty());
    let Out::Ok(v) = out else { unreachable!() };
    println!("{v:?}");
}

fn os(b: &[u8]) -> OsString {
    std::ffi::OsStr::from_bytes(b).to_os_string()
}

fn program(s: &mut Src, old: &OsString) -> OsString {
    const POOL: &[&str] = &[
        "",
        "/",
        ".",
        "..",
        "a/..",
        "dir/",
        "x//",
        "-",
        "--",
        "-h",
        "--help",
        "--version",
        "two words",
        "a=b",
        "\u{1}t",
        "名前/größe",
        "./-x",
        "/usr/bin/prog.exe",
        "prog",
        "a/b/c/d/e/f",
        "/-1",
        "//",
        "./",
        "{}",
        "%s",
        "\n",
        "help",
    ];
    match s.below(5) {
        0 => old.clone(),
        1 => os([b"\xff/\xfe".as_slice(), b"dir/\xc3", b"\xffx", b"a\xff/b"][s.below(4)]),
        2 => os(&[b"/opt/", old.as_bytes()].concat()),
        _ => s.pick(POOL).into(),
    }
}

/// Variables that must not matter.
fn variables(spec: &Spec, s: &mut Src) -> Vec<(String, &'static str)> {
    let mut names: Vec<String> = [
        "NO_COLOR",
        "COLUMNS",
        "TERM",
        "LANG",
        "RUST_BACKTRACE",
        "CLICOLOR_FORCE",
        "POSIXLY_CORRECT",
    ]
    .map(Into::into)
    .to_vec();
    for st in &spec.structs {
        for (_, a) in st.args().take(3) {
            for l in a.longs() {
                if !l.contains('=') && !l.contains('\0') {
                    names.push(l.to_uppercase().replace('-', "_"));
                    names.push(l.to_string());
                }
            }
        }
    }
    (0..s.below(6))
        .map(|_| (s.pick(&names).clone(), *s.pick(&["", "1", "10", "true", "-h", "--help", "C"])))
        .collect()
}

pub fn judge(
    u: &Unit,
    fns: &[RunFn],
    argv: &[OsString],
    aux: &[u64],
    rec: &mut Rec,
    first: Result<Out, String>,
) -> Result<(), Fail> {
    if argv.is_empty() || argv.iter().any(|a| a.as_bytes().contains(&0)) {
        // No process can be started with these.
        rec.mode = "impossible";
        rec.nontrivial = false;
        return Ok(());
    }
    let mut s = Src::new(aux);
    let mut argv = argv.to_vec();
    let before = argv[0].clone();
    argv[0] = program(&mut s, &argv[0]);
    let fail = |why: String, expected: String, actual: String| {
        Err(Fail { argv: argv.clone(), why, expected, actual, by_argv: false })
    };
    let out = call(fns[0], &argv);
    rec.calls += 1;
    // The program name matters for nothing but the help.
    let (res, _) = Model { spec: &u.specs[0], help: true }.run(&argv);
    match (&res, &out, &first) {
        (Res::Help { .. }, Ok(Out::Help(_)), Ok(Out::Help(_))) => {
            if let Err(why) = checks::agree(&res, &out, &[]) {
                return fail(why, checks::res_text(&res), checks::text(&out));
            }
        }
        _ if out == first => {}
        _ => {
            let why = format!("the outcome depends on the program name, which was {before:?}");
            return fail(why, checks::text(&first), checks::text(&out));
        }
    }
    let (ok, stdout, stderr) = match &out {
        Ok(Out::Ok(v)) => (true, format!("{v:?}\n"), String::new()),
        Ok(Out::Help(t)) => (false, String::new(), format!("{t}\n")),
        Ok(Out::Err { msg, .. }) => (false, String::new(), format!("{msg}\n")),
        Err(p) => return fail("panic".into(), String::new(), p.clone()),
    };
    let full = s.pct(8);
    let dir = ["/", "/tmp"][s.below(2)];
    let vars = variables(&u.specs[0], &mut s);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg0(&argv[0]).args(&argv[1..]).env_clear().envs(vars.iter().map(|(k, v)| (k, v)));
    cmd.env(CHILD, u.index.to_string())
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::piped());
    if full {
        // The text cannot be written. The process still has to fail.
        cmd.stderr(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
    } else {
        cmd.stderr(Stdio::piped());
    }
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot start a process: {e}");
            std::process::exit(2);
        }
    };
    rec.sample = format!(
        "{} -> exit {:?}, stdout {:?}, stderr {:?}",
        show(&argv),
        o.status.code(),
        String::from_utf8_lossy(&o.stdout),
        String::from_utf8_lossy(&o.stderr)
    );
    let stderr = if full { "" } else { &stderr };
    if o.status.success() == ok
        && o.status.code().is_some()
        && o.stdout == stdout.as_bytes()
        && o.stderr == stderr.as_bytes()
    {
        return Ok(());
    }
    fail(
        format!(
            "a process with these arguments differs (environment {vars:?}, stderr {})",
            if full { "/dev/full" } else { "a pipe" }
        ),
        format!("{}, stdout {stdout:?}, stderr {stderr:?}", if ok { "success" } else { "failure" }),
        format!(
            "{}, stdout {:?}, stderr {:?}",
            o.status,
            String::from_utf8_lossy(&o.stdout),
            String::from_utf8_lossy(&o.stderr)
        ),
    )
}
