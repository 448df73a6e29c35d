"""C17: invalid definitions do not compile, and the macro says why."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess

import check

TIMEOUT = 120


def build(work):
    """The library and the engine, built by cargo. Returns the arguments for rustc."""
    d = os.path.join(work, "ws")
    dep = lambda p: json.dumps(p)
    check.write_if_changed(
        os.path.join(d, "Cargo.toml"),
        '[package]\nname = "c17base"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\npalc = { path = %s }\nengine = { path = %s }\n\n'
        "[profile.dev]\ndebug = 0\nincremental = false\n\n[profile.dev.package.\"*\"]\nopt-level = 1\n"
        % (dep(check.REPO), dep(os.path.join(check.HERE, "engine"))),
    )
    check.write_if_changed(os.path.join(d, "src/lib.rs"), "")
    r = check.cargo(["build", "--offline", "--message-format=json", "-q"], d)
    if r.returncode != 0:
        check.die("the base crate does not build:\n" + r.stderr[-3000:])
    libs, macro = {}, None
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib"):
                libs[m["target"]["name"]] = f
    # Copies, as the target directory is shared.
    mine = os.path.join(work, "deps")
    shutil.rmtree(mine, ignore_errors=True)
    os.makedirs(mine)
    deps = os.path.join(check.TARGET, "debug", "deps")
    for name in ("palc", "engine"):
        if name not in libs:
            check.die("no library " + name)
    return ["--extern", "palc=" + libs["palc"], "--extern", "engine=" + libs["engine"], "-L", "dependency=" + deps]


class Rustc:
    def __init__(self, work, args):
        self.dir = os.path.join(work, "src")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.args = args
        self.n = 0
        self.runs = 0

    def compile(self, name, text):
        """(exit status, [error diagnostics], stderr)."""
        path = os.path.join(self.dir, name + ".rs")
        with open(path, "w") as f:
            f.write(text)
        cmd = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "zq", "--emit=metadata", "-o", os.path.join(self.dir, name + ".rmeta"),
               "--error-format=json", "-C", "debuginfo=0", "--cap-lints", "allow", path] + self.args
        self.runs += 1
        try:
            r = subprocess.run(cmd, env=check.env(), capture_output=True, text=True, errors="replace", timeout=TIMEOUT, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return None, [], "timeout"
        errs = []
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level", "").startswith("error") and not m["message"].startswith("aborting due to"):
                errs.append(m)
        for f in glob.glob(os.path.join(self.dir, name + ".rmeta")):
            os.remove(f)
        return r.returncode, errs, r.stderr


HEAD = "#![allow(warnings)]\n"


def assemble(mods):
    """A file of modules, and the first line (from 1) of the text of each."""
    out, at, line = [HEAD], [], 2
    for k, (wrap, src) in enumerate(mods):
        a, b = {
            0: ("pub mod m%d {\n" % k, "}\n"),
            1: ("pub fn f%d() {\n" % k, "}\n"),
            2: ("macro_rules! zq_make%d { () => {\n" % k, "} }\npub mod m%d { zq_make%d!(); }\n" % (k, k)),
            3: ("zq_pass! {\n", "}\n"),
            # Nothing around it.
            4: ("", ""),
        }[wrap]
        t = a + src + b
        at.append(line + a.count("\n"))
        line += t.count("\n")
        out.append(t)
    return "".join(out), at


def lines_of(err):
    """The lines of an error, also those of macros it comes from."""
    for s in err.get("spans") or []:
        if not s.get("is_primary"):
            continue
        while s:
            yield s["line_start"], s["line_end"]
            e = s.get("expansion")
            s = e["span"] if e else None


def within(err, first, last):
    return any(first <= a and b <= last for a, b in lines_of(err))


def code(err):
    return (err.get("code") or {}).get("code")


def good(m, errs, at):
    """Whether one of the errors is the one there has to be."""
    own = [e for e in errs if within(e, at + m["first"] - 1, at + m["last"] - 1)]
    if not m["macro"]:
        return bool(own)
    return any(code(e) in (None, "E0080") for e in own)


def bad_macro(rc, errs, text):
    """A panic of the macro, or of the compiler."""
    for e in errs:
        if re.search(r"(proc-macro derive|custom attribute) panicked", e["message"]):
            return e, "the macro panics: " + e["message"] + " " + "; ".join(c["message"] for c in e.get("children", []))
        if "produced unparsable tokens" in e["message"]:
            return e, "the macro writes code that does not parse: " + e["message"]
    if rc is None:
        return None, "the compiler does not come to an end"
    if rc not in (0, 1):
        return None, "the compiler dies with status %s: %s" % (rc, text[-600:])
    return None


def judge(rustc, name, m):
    """None, or why a single mutant is not rejected as it should be."""
    wrap = m["wrap"]
    text, (at,) = assemble([(wrap, m["src"])])
    rc, errs, err = rustc.compile(name, text)
    b = bad_macro(rc, errs, err)
    if b:
        return b[1]
    if rc == 0:
        return "an invalid definition compiles (%s)" % m["rule"]
    if not good(m, errs, at):
        seen = "\n".join(e.get("rendered") or e["message"] for e in errs)[:3000]
        return "the error for %s is not the macro's own or not at the definition:\n%s" % (m["rule"], seen)
    return None


def shrink(gen, rustc, unit, k, m):
    """Leave out parts of the definition while the same thing goes wrong."""
    skip = []

    def again(skip):
        r = subprocess.run([gen, "--id", "C17", "--seed", str(check.SEED), "--tier", check.TIER, "--only", ",".join(map(str, [unit, k] + skip))],
                           env=check.env(), capture_output=True, text=True)
        return json.loads(r.stdout) if r.returncode == 0 else None

    best = m
    for p in reversed(range(m["parts"])):
        if rustc.runs > 5000:
            break
        n = again(skip + [p])
        if n and judge(rustc, "shrink", n):
            skip.append(p)
            best = n
    return best


def pack(items, size):
    return [items[i : i + size] for i in range(0, len(items), size)]


SOUP_HEAD = "macro_rules! zq_pass { ($($t:tt)*) => { $($t)* } }\n"


def soup_file(texts):
    # A text may not lex or parse; each is the input of a macro of its own.
    text, at = assemble([(4, SOUP_HEAD)] + [(3, "mod s%d {\n" % i + t + "}\n") for i, t in enumerate(texts)])
    return text, at[1:]


def run_soups(rustc, name, texts):
    """(why, text, number of texts that the macro itself judged)."""
    file, at = soup_file(texts)
    rc, errs, err = rustc.compile(name, file)
    b = bad_macro(rc, errs, err)
    if b is None:
        judged = set()
        for e in errs:
            if code(e) is None:
                for i, t in enumerate(texts):
                    if within(e, at[i], at[i] + t.count("\n") + 1):
                        judged.add(i)
        return None, None, judged
    # Find the one.
    for t in texts:
        file, _ = soup_file([t])
        rc, errs, err = rustc.compile(name, file)
        b1 = bad_macro(rc, errs, err)
        if b1:
            return b1[1], t, set()
    return b[1], "".join(texts), set()


def shrink_soup(rustc, text):
    """Line by line, then token by token."""
    def fails(t):
        file, _ = soup_file([t])
        rc, errs, err = rustc.compile("shrink", file)
        return bad_macro(rc, errs, err) is not None

    for split, join in ((lambda t: t.splitlines(True), "".join), (lambda t: re.findall(r"\S+\s*", t), "".join)):
        parts = split(text)
        i = len(parts)
        while i > 0 and rustc.runs < 20000:
            i -= 1
            p = parts[:i] + parts[i + 1 :]
            if fails(join(p)):
                parts = p
        text = join(parts)
    return text


def main(replay=None):
    gen = check.build_gen()
    check.check_repo_builds()
    work = os.path.join(check.WORK, "C17")
    os.makedirs(work, exist_ok=True)
    rustc = Rustc(work, build(work))

    if replay is not None:
        if replay["kind"] == "soup":
            file, _ = soup_file([replay["source"]])
            rc, errs, err = rustc.compile("replay", file)
            b = bad_macro(rc, errs, err)
            why = b and b[1]
        else:
            why = judge(rustc, "replay", dict(replay, src=replay["source"]))
        print(replay["source"])
        if not why:
            print("not reproduced")
            return 0
        check.violation("C17", os.path.abspath(check.sys.argv[3]), why)
        return 1

    r = subprocess.run([gen, "--id", "C17", "--seed", str(check.SEED), "--tier", check.TIER], env=check.env(), capture_output=True, text=True)
    if r.returncode != 0:
        check.die("generation failed: " + r.stderr[-2000:])
    data = json.loads(r.stdout)
    pool = cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2))

    # Each definition compiles as it is. (If not, this says nothing about C17.)
    def twins(job):
        k, us = job
        text, _ = assemble([(0, data["units"][u]["twin"]) for u in us])
        rc, _, _ = rustc.compile("twin%d" % k, text)
        if rc == 0:
            return us
        ok = []
        for u in us:
            text, _ = assemble([(0, data["units"][u]["twin"])])
            if rustc.compile("twin%d_%d" % (k, u), text)[0] == 0:
                ok.append(u)
        return ok

    jobs = list(enumerate(pack(list(range(len(data["units"]))), 4)))
    valid = sorted(u for us in pool.map(twins, jobs) for u in us)
    if len(valid) * 2 < len(data["units"]):
        check.die("most definitions do not compile as they are")

    # Many mutants in a file; those that a file does not settle once more alone.
    todo = [(u, k, m) for u in valid for k, m in enumerate(data["units"][u]["mutants"])]
    early = [t for t in todo if t[2]["macro"]]
    late = [t for t in todo if not t[2]["macro"]]

    def many(job):
        n, ts = job
        text, at = assemble([(t[2]["wrap"], t[2]["src"]) for t in ts])
        rc, errs, err = rustc.compile("many%d" % n, text)
        if rc == 1 and not bad_macro(rc, errs, err):
            ts = [t for t, a in zip(ts, at) if not good(t[2], errs, a)]
        return ts

    rest = [t for ts in pool.map(many, enumerate(pack(early, 40) + pack(late, 12))) for t in ts]

    def single(t):
        u, k, m = t
        return t, judge(rustc, "single%d_%d" % (u, k), m)

    failed = [(t, why) for t, why in pool.map(single, rest) if why]

    soups = data["soups"]

    def some(job):
        n, ts = job
        return run_soups(rustc, "soup%d" % n, ts)

    judged = 0
    soup_fail = None
    for why, text, j in pool.map(some, enumerate(pack(soups, 60))):
        judged += len(j)
        if why and soup_fail is None:
            soup_fail = (why, text)

    rules = {}
    for _, _, m in todo:
        rules[m["rule"]] = rules.get(m["rule"], 0) + 1
    distinct = len({(m["rule"], m["src"]) for _, _, m in todo})
    samples = ["%s:\n%s" % (m["rule"], "\n".join(m["src"].splitlines()[m["first"] - 1 : m["last"]][:14])) for _, _, m in todo[:: max(1, len(todo) // 6)][:6]]
    cov = {
        "evaluations": len(todo) + len(soups),
        "distinct_nontrivial": distinct + judged,
        "rule": "Definitions are drawn by proptest and each is made invalid in one place by each of the rules below that applies; a mutant counts once, if its "
        "definition compiles without the change. Items with random tokens in their attributes count if the macro itself objects to them.",
        "samples": samples + ["random tokens:\n" + s for s in soups[:2]],
        "definitions": len(valid),
        "mutants": len(todo),
        "mutants_of_rule": rules,
        "soups": len(soups),
        "soups_judged_by_macro": judged,
        "compilations": rustc.runs,
    }
    n = len(failed) + (soup_fail is not None)
    check.evidence("C17", cov, n, check.ASSUME)
    print("C17: %d mutants by %d rules of %d definitions, %d random items (%d judged by the macro), %d compilations, %.0f s" % (
        len(todo), len(rules), len(valid), len(soups), judged, rustc.runs, check.time.time() - check.T0))
    if not n:
        if distinct < 100:
            check.die("too few mutants")
        return 0
    if os.environ.get("C17_ALL"):
        for (u, k, m), why in failed:
            print("=" * 70, u, k, m["rule"], m["wrap"])
            print(why[:1500])
            print("\n".join(m["src"].splitlines()[m["first"] - 1 : m["last"]]))
    if failed:
        failed.sort(key=lambda f: len(f[0][2]["src"]))
        (u, k, m), why = failed[0]
        m = shrink(gen, rustc, u, k, m)
        why = judge(rustc, "shrunk", m) or why
        data = {"kind": "mutant", "why": why, "rule": m["rule"], "macro": m["macro"], "wrap": m["wrap"], "first": m["first"], "last": m["last"], "source": m["src"]}
        path = check.save_replay("C17", data)
        check.violation("C17", path, m["src"], why)
    else:
        why, text = soup_fail
        text = shrink_soup(rustc, text)
        path = check.save_replay("C17", {"kind": "soup", "why": why, "source": text})
        check.violation("C17", path, text, why)
    return 1
