#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property. See DESIGN.md."""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PALC_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED") or "1")
TIER = os.environ.get("VERIF_TIER") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORK = os.path.join(HERE, "work")
TARGET = os.path.join(WORK, "target")
REPLAYS = os.path.join(HERE, "replays")
T0 = time.time()


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "1.96.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


def die(msg):
    """No verdict."""
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def cargo(args, cwd, timeout=700 if TIER == "quick" else 4 * 3600):
    try:
        return subprocess.run(["cargo"] + args, cwd=cwd, env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die("cargo %s took too long" % " ".join(args))


def build_gen():
    r = cargo(["build", "--offline", "-q"], os.path.join(HERE, "gen"))
    if r.returncode != 0:
        die("the generator does not build:\n" + r.stderr[-4000:])
    return os.path.join(TARGET, "debug", "gen")


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def nohelp_package(ws):
    """The library of the repository without default features, as a package of its own."""
    import tomllib

    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        t = tomllib.load(f)
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        wsd = tomllib.load(f).get("workspace", {}).get("package", {})
    p = t["package"]

    def inherited(k, d):
        v = p.get(k, d)
        return wsd.get(k, d) if isinstance(v, dict) else v

    deps = []
    for name, d in t.get("dependencies", {}).items():
        if isinstance(d, str):
            d = {"version": d}
        d = dict(d)
        if "path" in d:
            d["path"] = os.path.join(REPO, d["path"])
        parts = []
        for k, v in d.items():
            parts.append("%s = %s" % (k, json.dumps(v)))
        deps.append("%s = { %s }" % (name, ", ".join(parts)))
    feats = []
    for k, v in t.get("features", {}).items():
        if k != "default":
            feats.append("%s = %s" % (k, json.dumps(v)))
    text = "[package]\nname = \"palc-nohelp\"\nversion = \"0.0.3\"\nedition = %s\n\n[lib]\nname = \"palc\"\npath = %s\n\n[dependencies]\n%s\n\n[features]\n%s\n" % (
        json.dumps(inherited("edition", "2024")),
        json.dumps(os.path.join(REPO, "src/lib.rs")),
        "\n".join(deps),
        "\n".join(feats),
    )
    write_if_changed(os.path.join(ws, "palc-nohelp", "Cargo.toml"), text)


def check_repo_builds():
    """A tree that does not build has no behaviour to judge."""
    d = os.path.join(WORK, "probe")
    write_if_changed(
        os.path.join(d, "Cargo.toml"),
        '[package]\nname = "probe"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\npalc = { path = %s }\n\n'
        "[profile.dev]\ndebug = 0\nincremental = false\n\n[profile.dev.package.\"*\"]\nopt-level = 1\n" % json.dumps(REPO),
    )
    write_if_changed(os.path.join(d, "src/lib.rs"), "pub use palc as _;\n")
    r = cargo(["build", "--offline", "-q"], d)
    if r.returncode != 0:
        die("the repository does not build:\n" + r.stderr[-4000:])


def save_replay(cid, data):
    os.makedirs(REPLAYS, exist_ok=True)
    data = dict(property=cid, seed=SEED, tier=TIER, **data)
    text = json.dumps(data, indent=1, ensure_ascii=True)
    h = hashlib.sha256(text.encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.json" % (cid, h))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def known_findings(cid):
    """(signature, text) of the recorded, unrepaired defects."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line.strip())
                if m and m.group(1) == cid:
                    out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def evidence(cid, cov, violations, assumptions=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    e = {
        "property": cid,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions or [],
        "wall_s": round(time.time() - T0, 2),
        "violations": violations,
    }
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def violation(cid, path, *lines):
    for l in lines:
        print(l)
    print("VIOLATION property=%s replay=%s" % (cid, path), flush=True)


ASSUME = [
    "The rustc 1.96.0, proptest and the standard library of this sandbox work as documented.",
    "Definitions are those that the generator makes; definitions outside of its grammar are not covered.",
]


def build_ws(cid, ws):
    """Build the generated workspace. Returns None, or a description of what fails in generated code."""
    r = cargo(["build", "--offline", "--message-format=json", "-q"], ws)
    if r.returncode == 0:
        return None
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
            continue
        src = m["target"]["src_path"]
        if not os.path.abspath(src).startswith(os.path.abspath(ws) + os.sep) or "/palc-nohelp" in m.get("package_id", ""):
            continue
        spans = m["message"].get("spans") or []
        sp = [s for s in spans if s.get("is_primary")] or spans
        module = definition = None
        if sp:
            # Follow macro expansions out to the definition.
            s = sp[0]
            while s.get("expansion"):
                s = s["expansion"]["span"]
            with open(src) as f:
                lines = f.read().split("\n")
            n = min(s["line_start"], len(lines)) - 1
            a = n
            while a > 0 and not lines[a].startswith("pub mod u"):
                a -= 1
            b = n
            while b + 1 < len(lines) and not lines[b + 1].startswith("pub mod u"):
                b += 1
            module = lines[a]
            definition = "\n".join(lines[a : b + 1])
        return {
            "kind": "compile",
            "why": "a valid definition does not compile",
            "message": m["message"].get("rendered", "")[:4000],
            "module": module,
            "definition": definition,
        }
    die("the generated workspace does not build:\n" + r.stderr[-3000:] + r.stdout[-3000:])


def run(cmd, timeout):
    try:
        r = subprocess.run(cmd, env=env(), capture_output=True, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return None, ""


def ws_prepare(cid, gen):
    ws = os.path.join(WORK, cid, "ws")
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    r = subprocess.run(
        [gen, "--id", cid, "--seed", str(SEED), "--tier", TIER, "--out", ws, "--engine", os.path.join(HERE, "engine"), "--repo", REPO],
        env=env(), capture_output=True, text=True,
    )
    if r.returncode != 0:
        die("generation failed: " + r.stderr[-2000:])
    if cid == "C16":
        nohelp_package(ws)
    return ws


def inproc(cid, replay=None):
    gen = build_gen()
    check_repo_builds()
    ws = ws_prepare(cid, gen)
    bad = build_ws(cid, ws)
    if bad is not None:
        evidence(cid, {"evaluations": 1, "distinct_nontrivial": 0, "rule": "compilation of the generated definitions failed", "samples": [bad["module"]]}, 1, ASSUME)
        path = save_replay(cid, bad)
        violation(cid, path, bad["why"], bad["message"])
        return 1
    runner = os.path.join(TARGET, "debug", "runner")
    # The target directory is shared: keep this one.
    mine = os.path.join(WORK, cid, "runner")
    shutil.copy2(runner, mine)
    out = os.path.join(WORK, cid, "out.json")
    for f in glob.glob(out + "*"):
        os.remove(f)
    base = [mine, "--id", cid, "--seed", str(SEED), "--tier", TIER, "--out", out]

    if replay is not None:
        if replay["kind"] == "words":
            cmd = base + ["--words", by_file(out, "%d %s;%s" % (replay["unit"], replay["words"], replay["aux"]))]
        else:
            cmd = base + ["--argv", by_file(out, "%d %s" % (replay["unit"], replay["argv_hex"])), "--aux", replay.get("aux", "")]
        rc, text = run(cmd, 120)
        print(text)
        if rc == 0:
            print("not reproduced")
            return 0
        if rc is None and replay.get("why") != HANGS:
            die("timeout")
        if rc is not None and rc > 1:
            die("runner: exit %d" % rc)
        violation(cid, os.path.abspath(sys.argv[3]))
        return 1

    rc, text = run(base, 600 if TIER == "quick" else 3600 * 4)
    if rc is None:
        die("the runner took too long")
    if rc < 0:
        return crashed(cid, base, out, rc)
    if rc not in (0, 1):
        die("runner: exit %d\n%s" % (rc, text[-3000:]))
    with open(out) as f:
        d = json.load(f)
    fail = d.pop("failure")
    d.pop("level_of_units", None)
    evidence(cid, d, 0 if fail is None else 1, ASSUME)
    if d["distinct_nontrivial"] < 100 and fail is None:
        die("the generator made too few interesting cases")
    print("%s: %d cases (%d non-trivial) over %d definitions, %.0f s" % (cid, d["evaluations"], d["distinct_nontrivial"], d["definitions"], time.time() - T0))
    if fail is None:
        return 0
    fail["kind"] = "argv" if fail.pop("by_argv") else "words"
    path = save_replay(cid, fail)
    violation(cid, path, fail["definition"], "argv: " + fail["argv"], fail["why"], "expected: " + fail["expected"], "actual:   " + fail["actual"])
    return 1


HANGS = "the parser does not end"


def by_file(out, text):
    """Lines may be longer than a command line may be."""
    with open(out + ".arg", "w") as f:
        f.write(text)
    return "@" + out + ".arg"


def crashed(cid, base, out, rc):
    """The process died, or hung, in the code under test. Find the line and make it small."""
    end = time.time() + 180
    for f in sorted(glob.glob(out + ".trace*")):
        with open(f, "rb") as h:
            b = h.read()
        try:
            n = int.from_bytes(b[:4], "little")
            unit, hexed = b[4 : 4 + n].decode().split()
        except ValueError:
            # Empty, or another thread was writing it.
            continue

        def dies(toks):
            h = "".join("," + x for x in toks) or "-"
            r, _ = run(base + ["--argv", by_file(out, "%s %s" % (unit, h))], 30)
            return r is None or r < 0

        toks = [] if hexed == "-" else hexed[1:].split(",")
        if not dies(toks):
            continue
        # Halves first, then single arguments.
        step = max(len(toks) // 2, 1)
        while time.time() < end:
            i = len(toks)
            while i > 0 and time.time() < end:
                i -= step
                t = toks[: max(i, 0)] + toks[i + step :]
                if dies(t):
                    toks = t
            if step == 1:
                break
            step //= 2
        r, _ = run(base + ["--argv", by_file(out, "%s %s" % (unit, "".join("," + x for x in toks) or "-"))], 60)
        if r is not None and r >= 0:
            continue
        hexed = "".join("," + x for x in toks) or "-"
        argv = [bytes.fromhex(x).decode(errors="backslashreplace") for x in toks]
        data = {"kind": "argv", "unit": int(unit), "argv_hex": hexed, "argv": repr(argv), "why": HANGS if r is None else "the process is killed by signal %d" % -r}
        evidence(cid, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash", "samples": [repr(argv)[:600]]}, 1, ASSUME)
        path = save_replay(cid, data)
        violation(cid, path, "argv: %s" % repr(argv)[:4000], data["why"])
        return 1
    die("the runner was killed by signal %d, not reproduced" % -rc)


def main():
    global SEED, TIER
    if len(sys.argv) < 2:
        die("usage: check.py ID [--replay FILE]")
    cid = sys.argv[1]
    replay = None
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            replay = json.load(f)
        SEED, TIER = replay["seed"], replay["tier"]
    os.makedirs(WORK, exist_ok=True)
    special = {}
    for name in ("c17", "c19", "c23"):
        if os.path.exists(os.path.join(HERE, name + ".py")):
            special[name.upper()] = name
    if cid in special:
        sys.path.insert(0, HERE)
        sys.modules["check"] = sys.modules["__main__"]
        mod = __import__(special[cid])
        return mod.main(replay)
    if replay is not None and replay["kind"] == "compile":
        replay = None
    return inproc(cid, replay)


if __name__ == "__main__":
    try:
        code = main()
    except Exception as e:  # no verdict, which is not the same as a violation
        import traceback

        traceback.print_exc()
        die("internal: %r" % e)
    sys.exit(code)
