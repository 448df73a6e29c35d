"""C23: besides what `check.inproc` decides, expressions in attributes mean what they mean next to the definition."""
import json
import os
import random
import re
import subprocess

import c17
import check

UNSUPPORTED = 'unsupported expression; enable syn\'s features=["full"]'
SIGNATURE = "expression-needs-syn-full"

HEAD = r"""#![allow(warnings)]
pub const k: u8 = 11;
pub const z: u8 = 12;
pub const TXT: &str = "A constant text";
pub static st: u8 = 13;
pub mod consts { pub const K: u8 = 21; pub const TXT: &str = "Another {text}"; pub const fn q() -> u8 { 22 } }
pub const fn id<T: Copy>(t: T) -> T { t }
pub const fn add(a: u8, b: u8) -> u8 { a.wrapping_add(b) }
pub const fn pick(b: bool, s: &'static str, t: &'static str) -> &'static str { if b { s } else { t } }
#[derive(Clone, Copy)] pub struct W { pub v: u8, pub w: u8 }
pub struct X { pub t: &'static str }
pub struct T(pub u8);
pub struct N<const M: u8>;
impl<const M: u8> N<M> { pub const C: u8 = M; pub fn c() -> u8 { M } }
pub trait Tr { const C: u8; const S: &'static str; fn m(&self) -> u8; }
impl Tr for W { const C: u8 = 31; const S: &'static str = "Of a trait"; fn m(&self) -> u8 { self.v } }
macro_rules! join { ($a:expr, $b:expr $(,)?) => { ($a) ^ ($b) }; ($a:tt => $b:tt) => { $b }; }
macro_rules! same { ($($t:tt)*) => { $($t)* } }
#[derive(Clone, Copy, PartialEq, Debug)] pub struct Pt { pub x: u8, pub y: u8 }
impl std::str::FromStr for Pt { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Pt, Self::Err> { Ok(Pt { x: s.parse()?, y: 0 }) } }
impl std::fmt::Display for Pt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}:{}", self.x, self.y) } }
fn os(l: &[&str]) -> Vec<std::ffi::OsString> { l.iter().map(|s| s.into()).collect() }
"""

# Templates per type: `u` is a u8, `b` a bool, `t` a text, `p` a point, `s` a String, `v` a list of u8. Upper case letters stand for
# parts. The second list has what is more than syn parses without its feature "full".
PLAIN = {
    "u": ["7", "7u8", "0x1f", "b'a'", "1_0", "k", "self::k", "crate::consts::K", "consts::q()", "u8::MAX", "<u8>::MIN", "<W as Tr>::C", "N::<5>::C", "N::<{ 3 }>::c()",
          "st", "::core::primitive::u8::MAX",
          "(U)", "{ U }", "id(U)", "id::<u8>(U)", "id::<_>(U,)", "add(U, U)", "(U).wrapping_add(U)", "u8::wrapping_sub(U, U)", "(U, U).1", "((U, 1), 'x').0.0", "W { v: U, w: 1 }.v",
          "(W { w: U, ..W { v: 1, w: 2 } }).w", "T(U).0", "*&(U)", "!(U)", "(U) as u32 as u8", "(U) ^ (U)", "(U) & (U) | (U)", "(U) >> 1", "(U) % 7", "(U) / 2", "join!(U, U)", "join![U, U,]",
          "join! { U, U }", "join!(a => 4)", "same!(U)", "(B) as u8", "vec![U, U][1]", "Some(U).unwrap()", "None.unwrap_or(U)", "(T).len() as u8", "W { v: U, w: U }.m()", "Tr::m(&W { v: U, w: 0 })",
          "<W as Tr>::m(&W { v: U, w: 0 })", "(&(U)).clone()", "Into::<u8>::into(U)", "Result::<u8, ()>::Ok(U).unwrap_or_default()", "*Box::new(U)", "(P).x", "Vec::from_iter(Some(U))[0]"],
    "b": ["true", "false", "(U) < (U)", "(U) >= (U)", "(U) == (U)", "(U) != k", "(B) && (B)", "(B) || (B)", "!(B)", "matches!(U, 0..=9 | 200..)", "(B) ^ (B)", "same!(B)", "(T).is_empty()", "{ B }", "k < z", "!!(B)", "cfg!(unix)"],
    "t": ['"Some text"', 'r"Raw \\n"', 'r#"With "quotes""#', "TXT", "self::TXT", "consts::TXT", 'concat!("a", 1, "b")', "stringify!(a b)", "(T)", "{ T }", "(1, T).1", "X { t: T }.t", "pick(B, T, T)",
          "pick(true, T, T,)", "*&(T)", "<W as Tr>::S", "same!(T)", "id(T)", 'concat! { "x", "y" }'],
    "p": ["Pt { x: U, y: U }", "crate::Pt { y: U, x: 3 }", "id(P)", "(P)", "Pt { x: U, ..P }", "{ P }", "(P).clone()"],
    "s": ["String::new()", "String::from(T)", "(T).to_string()", "(T).to_owned() + T", 'format!("{}-{x}", U, x = T)', "<String as From<&str>>::from(T)", "(T).into()", "(S)", "{ S }",
          "(T).replace('t', \"T\")"],
}
RICH = {
    "u": ["[U, U][1]", "[U; 3][2]", "if B { U } else { U }", "match U { 0 => U, _ => U }", "{ let q = U; q ^ 1 }", "(|q: u8| q ^ 1)(U)", "unsafe { U }", "const { 5 }", "loop { break U; }", "'l: { break 'l U }",
          "{ const fn q() -> u8 { 4 } q() }", "{ U; U }", "Some(U).map(|q| q ^ 1).unwrap()", "[U, 3].into_iter().max().unwrap()", "{ use consts::K; K }", "(U) as _"],
    "b": ["if let 3 = U { B } else { B }", "[B][0]", "{ let q = B; !q }", "match (U, B) { (1, _) => true, (_, b) => b }"],
    "t": ["[T, T][0]", "if B { T } else { T }", "{ const Q: &str = T; Q }", "match B { true => T, false => T }", "{ let q = T; q }"],
    "p": ["{ let q = P; q }", "if B { P } else { P }", "[P][0]"],
    "s": ["[T, T].concat()", "{ let mut q = S; q.push('!'); q }", "if B { S } else { S }", "(T).chars().map(|c| c).collect()"],
}
PART = {"U": "u", "B": "b", "T": "t", "P": "p", "S": "s"}
# Only constants, as texts are.
CONST_OUT = ("vec!", ".into", "Into", "Box", "Vec::", "Some(U).unwrap", "None.un", "Result", ".clone", ".m()", "Tr::m", ">::m", "cfg!(", "st", "::c()")


class Gen:
    def __init__(self, r):
        self.r = r

    def expr(self, ty, depth, rich, const):
        """(template, parts)."""
        pool = list(PLAIN[ty])
        if rich and self.r.random() < 0.5:
            pool = list(RICH[ty])
        if const:
            pool = [t for t in pool if not any(t == c or len(c) > 2 and c in t for c in CONST_OUT) and "|" not in t.replace("||", "").replace("0..=9 |", "").replace(") | (", "") and "0..9)" not in t and "(0..U)" not in t and "into_iter" not in t and "[B]" not in t]
        if depth <= 0:
            pool = [t for t in pool if not any(is_part(t, i) for i in range(len(t)))] or [{"u": "k", "b": "true", "t": "TXT", "p": "Pt { x: 1, y: 2 }", "s": "String::new()"}[ty]]
        t = self.r.choice(pool)
        return [ty, t, [self.expr(PART[t[i]], depth - 1, rich, const) for i in range(len(t)) if is_part(t, i)]]


def is_part(t, i):
    """Whether a letter is a part and not of a name."""
    if t[i] not in PART:
        return False
    word = lambda c: c.isalnum() or c in "_\"'"
    return not (i > 0 and (word(t[i - 1]) or t[i - 1] in ":<") or i + 1 < len(t) and (word(t[i + 1]) or t[i + 1] in "([!" or t[i + 1 : i + 3] == "::"))


def show(e):
    _, t, parts = e
    out, n = [], 0
    for i, c in enumerate(t):
        if is_part(t, i):
            out.append(show(parts[n]))
            n += 1
        else:
            out.append(c)
    return "".join(out)


def has_rich(e):
    return e[1] in RICH[e[0]] or any(map(has_rich, e[2]))


PROBE = r"""
#[derive(palc::ValueEnum, Clone)]
enum Zqve { Zqone, #[value(name = "x")] Zqtwo }
#[derive(palc::Args)]
struct Zqflat { #[arg(long, global = true)] zqg: bool, #[arg(long)] zqr: u8, #[arg(long, default_value_t)] zqs: String }
#[derive(palc::Args)]
struct Zqnew { #[arg(short, allow_hyphen_values = true)] zqh: Option<String>, zqn: Option<u8>, #[command(subcommand)] zqc: Option<Zqleaf> }
#[derive(palc::Subcommand)]
enum Zqleaf { Zqend }
#[derive(palc::Subcommand)]
enum Zqsub { #[command(long_about = "a", after_long_help = "b")] Zqunit, Zqinline { #[arg(long, default_value_t = 3)] zqi: u8, zqp: Vec<String> }, Zqbox(Zqnew) }
#[derive(palc::Parser)]
#[command(long_about, after_long_help = "x")]
struct Zqmain {
    /// Doc.
    #[arg(long, short = 'a', alias = "zz", requires = "zqo", conflicts_with_all = ["zqv", "zqe"])] zqa: bool,
    #[arg(long, require_equals = true)] zqo: Option<Option<u8>>,
    #[arg(long, value_delimiter = ',', default_value = "1")] zqv: Vec<u8>,
    #[arg(long, ignore_case = true, default_value_t = Zqve::Zqone)] zqe: Zqve,
    #[arg(long, required = true)] zql: Option<Vec<char>>,
    zqq: String,
    #[arg(last = true)] zqz: Vec<String>,
    #[command(flatten)] zqf: Zqflat,
    #[command(subcommand)] zqd: Zqsub,
}
#[derive(palc::Parser)]
struct Zqonly { #[arg(long, exclusive = true)] zqx: bool, #[arg(trailing_var_arg = true)] zqt: Vec<String> }
fn main() {}
"""
RESERVED = set(
    "as async await box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return self Self static struct super trait true try type typeof unsafe unsized use virtual where while yield abstract become main macro_rules union raw r i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize f32 f64 bool char str std core alloc palc".split()
)


def dictionary(work, args):
    """The identifiers in what the macros write for a definition that has a bit of everything."""
    path = os.path.join(work, "probe.rs")
    with open(path, "w") as f:
        f.write("#![allow(warnings)]\n" + PROBE)
    cmd = ["rustc", "--edition", "2024", "--crate-name", "probe", "-Zunpretty=expanded", "--cap-lints", "allow", path] + args
    r = subprocess.run(cmd, env=dict(check.env(), RUSTC_BOOTSTRAP="1", CARGO_PKG_DESCRIPTION="d"), capture_output=True, text=True, errors="replace", timeout=120, cwd=work)
    code = re.sub(r'"(\\.|[^"\\])*"', '""', r.stdout)
    code = re.sub(r"#!?\[[^\]]*\]", "", re.sub(r"\s*(::|\.)\s*", r"\1", code))
    words = set()
    # What is only used with a path or a receiver has no meaning of its own.
    for w in re.findall(r"(?<![\w.:])[A-Za-z_]\w*", code):
        m = re.search("zq[a-z]", w)
        if m and re.fullmatch(".*[zZ]q[a-z].*", w.replace(m.group(), "", 1)):
            continue
        if m and (m.group() == w or len(w) > 40):
            continue
        w = w.replace(m.group(), "{}", 1) if m else w
        if w.startswith("__") or w in RESERVED or re.match("Zq|_$", w):
            continue
        words.add(w)
    return sorted(words)[:400]


TY = {"u": "u8", "b": "bool", "p": "crate::Pt", "s": "String", "o": "u8"}
NAMES = ["a", "k", "id", "add", "z", "consts", "st", "pick", "value", "v", "q", "os", "join"]


RENAMED = ["k", "z", "st", "consts", "add", "pick", "id", "W", "X", "T", "N", "Tr", "Pt", "TXT", "K", "q", "join", "same"]
GROUP = 60


def renames(r, words):
    """Other names for what the expressions refer to: those that the macros use for something."""
    with open(os.path.abspath(__file__)) as f:
        taken = set(re.findall(r"\w+", f.read()))
    words = [w.replace("{}", r.choice(NAMES)) for w in words]
    words = sorted({w for w in words if w not in taken})
    r.shuffle(words)
    out, options = {}, {"help", "h"}
    for a in RENAMED:
        for i, w in enumerate(words):
            # There are fields of these names as well, hence options.
            o = w.replace("_", "").lower()
            if a in NAMES and o in options:
                continue
            if r.random() < 0.7:
                options.add(o)
                out[a] = words.pop(i)
            break
    return out


def renamed(text, names):
    return re.sub(r"\w+", lambda m: names.get(m.group(), m.group()), text)


def draw(r, n, names):
    """A definition: [about, after, [(name, type, form, expression)], names]."""
    g = Gen(r)
    rich = n % 3 == 2
    text = lambda: g.expr("t", r.randrange(4), rich, True) if r.random() < 0.5 else None
    fields = []
    for nm in r.sample(NAMES, r.randrange(1, 5)):
        ty = r.choice("uuubps")
        fields.append([nm, ty, r.randrange(5), g.expr(ty, r.randrange(5), rich, False)])
    return [text(), text(), fields, names]


def rich_def(d):
    return any(e is not None and has_rich(e) for e in d[:2]) or any(has_rich(f[3]) for f in d[2])


def source(d, alone=False):
    """The module of a definition, or of its expressions alone."""
    about, after, fields = d[:3]
    args = show
    o = []
    if about:
        o.append("#[command(long_about = %s)]" % args(about))
    if after:
        o.append("#[command(after_long_help = %s)]" % args(after))
    body = ["#[derive(palc::Parser)]"] + o + ["pub struct Def {"]
    for i, (n, ty, form, e) in enumerate(fields):
        at = {0: "long", 1: "short = '%s', long" % "abcdefgh"[i], 2: "long", 3: "short = '%s'" % "stuvwxyz"[i], 4: ""}[form]
        if ty == "b" and form == 4:
            at = "long"
        at = (at + ", " if at else "") + "default_value_t = %s" % args(e)
        body.append("    #[arg(%s)]\n    pub %s: %s," % (at, n, TY[ty]))
    body.append("}")
    b = ["pub mod want {", "    use super::super::*;"]
    for n, ty, form, e in fields:
        b.append("    pub fn want_%s() -> %s { %s }" % (n, TY[ty], show(e)))
    for nm, e in (("about", about), ("after", after)):
        if e:
            b.append("    pub const %s: &str = %s;" % (nm.upper(), show(e)))
    b.append("}")
    if alone:
        return "\n".join(b) + "\npub fn check() -> Result<(), String> { Ok(()) }\n"
    c = ["pub fn check() -> Result<(), String> {",
         '    let d = <Def as palc::Parser>::try_parse_from(super::os(&["p"])).map_err(|e| format!("the empty line is rejected: {e}"))?;',
         '    let help = match <Def as palc::Parser>::try_parse_from(super::os(&["p", "--help"])) { Err(e) => e.try_into_help().map_err(|e| e.to_string())?, Ok(_) => return Err("no help".into()) };']
    for n, ty, form, e in fields:
        c.append('    if d.%s != want::want_%s() { return Err(format!("`%s` is {:?}, and the expression is {:?}", d.%s, want::want_%s())); }' % (n, n, n, n, n))
        if ty != "b":
            c.append('    if !want::want_%s().to_string().is_empty() && !help.contains(&format!("[default: {}]", want::want_%s())) { return Err(format!("the default of `%s` is not in the help:\\n{help}")); }' % (n, n, n))
    if about:
        c.append('    if !help.starts_with(want::ABOUT) { return Err(format!("the description is not in the help:\\n{help}")); }')
    if after:
        c.append('    if !help.trim_end().ends_with(want::AFTER.trim_end()) { return Err(format!("the last text is not in the help:\\n{help}")); }')
    c.append("    Ok(())\n}")
    return "    use super::*;\n" + "\n".join(body + b + c) + "\n"


def file_of(srcs, names):
    out, at = [HEAD], []
    line = HEAD.count("\n") + 1
    for i, s in enumerate(srcs):
        t = "pub mod m%d {\n%s}\n" % (i, s)
        at.append((line, line + t.count("\n") - 1))
        line += t.count("\n")
        out.append(t)
    out.append("fn main() {\n" + "".join('    if let Err(e) = std::panic::catch_unwind(m%d::check).unwrap_or_else(|_| Err("a panic".into())) { println!("BAD %d {e:?}"); }\n' % (i, i) for i in range(len(srcs))) + '    println!("END");\n}\n')
    return renamed("".join(out), names), at


class Rustc:
    def __init__(self, work, args):
        self.dir = os.path.join(work, "expr")
        os.makedirs(self.dir, exist_ok=True)
        self.args = args
        self.runs = 0

    def compile(self, srcs, link, names):
        """(status, {module: messages})."""
        text, at = file_of(srcs, names)
        self.runs += 1
        path = os.path.join(self.dir, "e.rs")
        with open(path, "w") as f:
            f.write(text)
        cmd = ["rustc", "--edition", "2024", "--crate-type", "bin", "--crate-name", "e", "--error-format=json", "-C", "debuginfo=0", "--cap-lints", "allow", path] + self.args
        cmd += ["-o", os.path.join(self.dir, "e")] if link else ["--emit=metadata", "-o", os.path.join(self.dir, "e.rmeta")]
        r = subprocess.run(cmd, env=check.env(), capture_output=True, text=True, errors="replace", timeout=300, cwd=self.dir)
        bad = {}
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if not m.get("level", "").startswith("error") or m["message"].startswith("aborting due to"):
                continue
            for i, (a, b) in enumerate(at):
                if c17.within(m, a, b):
                    bad.setdefault(i, []).append(m)
        if r.returncode not in (0, 1) or srcs and (r.returncode == 1) != bool(bad):
            check.die("rustc on expressions: " + r.stderr[-2000:])
        return r.returncode, bad

    def run(self, srcs):
        """{module: what is wrong}, of a file that compiles."""
        r = subprocess.run([os.path.join(self.dir, "e")], env=check.env(), capture_output=True, text=True, errors="replace", timeout=120)
        if "END" not in r.stdout:
            return {0: "the process dies"} if len(srcs) == 1 else {i: None for i in range(len(srcs))}
        return {int(l.split()[1]): l.split(" ", 2)[2] for l in r.stdout.splitlines() if l.startswith("BAD ")}


def unsupported(msgs):
    return any(m["message"] == UNSUPPORTED for m in msgs)


def judge(rustc, d):
    """None, or why a single definition is not right. "known" for the recorded finding."""
    src = source(d)
    rc, bad = rustc.compile([src], True, d[3])
    if rc:
        msgs = bad[0]
        if rich_def(d) and unsupported(msgs):
            return "known"
        return "a valid definition does not compile\n" + "\n".join(m.get("rendered") or m["message"] for m in msgs)[:3000]
    bad = rustc.run([src])
    return bad.get(0) and "with an expression: " + bad[0]


def smaller(e):
    """Simpler expressions of the same type."""
    for p in e[2]:
        if p[0] == e[0]:
            yield p
    for i, p in enumerate(e[2]):
        for q in smaller(p):
            yield [e[0], e[1], e[2][:i] + [q] + e[2][i + 1 :]]


def shrink(rustc, d, limit=80):
    def cands(d):
        about, after, fields = d[:3]
        if about:
            yield [None, after, fields]
        if after:
            yield [about, None, fields]
        for i in range(len(fields)):
            if len(fields) > 1:
                yield [about, after, fields[:i] + fields[i + 1 :]]
        for i, f in enumerate(fields):
            for e in smaller(f[3]):
                yield [about, after, fields[:i] + [f[:3] + [e]] + fields[i + 1 :]]
        for k in (0, 1):
            if d[k]:
                for e in smaller(d[k]):
                    yield [e if k == 0 else about, e if k == 1 else after, fields]

    start = rustc.runs
    again = True
    while again and rustc.runs - start < limit:
        again = False
        for c in cands(d):
            c = c[:3] + [d[3]]
            if rustc.runs - start >= limit:
                break
            w = judge(rustc, c)
            if w and w != "known":
                d, again = c, True
                break
    return d


def expressions(rustc, n, words):
    """(violation or None, coverage, whether the known finding is there)."""
    r = random.Random(check.SEED)
    defs = []
    for lo in range(0, n, GROUP):
        names = renames(r, words)
        if rustc.compile([], False, names)[0]:
            names = {}
        defs += [draw(r, i, names) for i in range(lo, min(n, lo + GROUP))]

    def compile(part, text, link):
        """{definition: messages}, of those in `part`."""
        b = rustc.compile([text(defs[i]) for i in part], link, defs[part[0]][3])[1]
        return {part[i]: m for i, m in b.items()}

    groups = [list(range(lo, min(n, lo + GROUP))) for lo in range(0, n, GROUP)]
    # Only what compiles next to a definition can be asked for in one.
    invalid = {}
    for part in groups:
        invalid.update(compile(part, lambda d: source(d, True), False))
    if os.environ.get("C23_SHOW"):
        for i, m in invalid.items():
            print(source(defs[i], True), m[0]["rendered"])
    groups = [g for g in ([i for i in g if i not in invalid] for g in groups) if g]
    bad = {}
    for part in groups:
        bad.update(compile(part, source, False))
    known = {i for i, m in bad.items() if rich_def(defs[i]) and unsupported(m)}
    suspects = [i for i in sorted(bad) if i not in known]
    ok = [i for g in groups for i in g if i not in bad]
    runs = 0
    if not suspects:
        for part in groups:
            part = [i for i in part if i not in bad]
            if not part:
                continue
            b = compile(part, source, True)
            if b:
                suspects += b
                continue
            wrong = rustc.run(part)
            runs += len(part)
            suspects += [part[i] for i in wrong]
    n -= len(invalid)
    srcs = {i: renamed(source(defs[i]), defs[i][3]) for i in ok[:3]}
    fail = None
    for i in suspects:
        w = judge(rustc, defs[i])
        if w and w != "known":
            fail = defs[i]
            break
    cov = {
        "expression_definitions": n,
        "expression_definitions_invalid": len(invalid),
        "expression_names": sorted({w for d in defs for w in d[3].values()}),
        "expression_definitions_run": runs,
        "expression_nontrivial": sum(any(f[3][2] for f in defs[i][2]) or bool(defs[i][0]) or bool(defs[i][1]) for i in ok),
        "expression_known_finding": len(known),
        "expression_samples": [srcs[i].split("pub mod want")[0] for i in ok[:3]],
    }
    if fail is None and runs * 3 < n:
        check.die("too few definitions with expressions")
    return fail, cov, [defs[i] for i in known]


def main(replay):
    cid = "C23"
    work = os.path.join(check.WORK, cid)
    os.makedirs(work, exist_ok=True)
    args = c17.build(work)
    words = dictionary(work, args)
    os.environ["PALC_DICT"] = os.path.join(work, "words")
    with open(os.environ["PALC_DICT"], "w") as f:
        f.write("".join(w + "\n" for w in words))
    if replay is not None and replay["kind"] != "expr":
        return check.inproc(cid, None if replay["kind"] == "compile" else replay)
    if replay is None:
        rc = check.inproc(cid)
        if rc:
            return rc
    else:
        check.build_gen()
        check.check_repo_builds()
    rustc = Rustc(work, args)
    if replay is not None:
        why = judge(rustc, replay["definition"])
        print(renamed(source(replay["definition"]), replay["definition"][3]))
        if not why or why == "known":
            print("not reproduced")
            return 0
        check.violation(cid, os.path.abspath(check.sys.argv[3]), why)
        return 1
    fail, cov, known = expressions(rustc, 240 if check.TIER == "quick" else 3000, words)
    path = os.path.join(check.HERE, "evidence", cid + ".json")
    with open(path) as f:
        ev = json.load(f)
    cov = dict(ev["coverage"], **cov)
    listed = dict(check.known_findings(cid))
    if fail is None and known and SIGNATURE not in listed:
        # Not on record: the smallest of them is the violation.
        print("a definition with a valid expression does not compile: " + UNSUPPORTED)
        d = min(known, key=lambda d: len(source(d)))
        check.evidence(cid, cov, 1, check.ASSUME)
        p = check.save_replay(cid, {"kind": "expr", "why": UNSUPPORTED, "definition": d, "source": renamed(source(d), d[3])})
        check.violation(cid, p, renamed(source(d), d[3]))
        return 1
    check.evidence(cid, cov, 0 if fail is None else 1, check.ASSUME)
    print("C23: %d definitions with expressions, %d of them run, %d compilations, %.0f s" % (cov["expression_definitions"], cov["expression_definitions_run"], rustc.runs, check.time.time() - check.T0))
    if fail is not None:
        fail = shrink(rustc, fail)
        why = judge(rustc, fail)
        p = check.save_replay(cid, {"kind": "expr", "why": why, "definition": fail, "source": renamed(source(fail), fail[3])})
        check.violation(cid, p, renamed(source(fail), fail[3]), why)
        return 1
    if known:
        print("KNOWN-FINDING: property=%s %s" % (cid, listed[SIGNATURE]))
    return 0
