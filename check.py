#!/usr/bin/env python3
"""Build the harness for a property from /repo's working tree, search for a
counterexample, and report.

  check.py run PROPERTY        quick or thorough according to $VERIF_TIER
  check.py replay FILE         run a saved counterexample again
  check.py setup               build everything once
"""
import concurrent.futures
import hashlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
LIB = REPO / "libexactreal"
BUILD = VERIF / ".build"
REPLAYS = VERIF / "replays"
JOBS = os.cpu_count() or 4

ARF = ["arf"]
ARB = ["arf", "arb"]
ALL = None  # every source of the library

sys.path.insert(0, str(VERIF))
from props import HARNESSES, PROPERTIES  # noqa: E402

LIBS = ["-leanticxx", "-leantic", "-lflint", "-lgmpxx", "-lgmp"]
GXX = ["g++", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,shift,alignment", "-fno-sanitize-recover=all"]
CLANG = ["clang++", "-g1", "-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=signed-integer-overflow,shift,alignment", "-fno-sanitize-recover=all", "-DPBT_FUZZER"]


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    def __init__(self, what, text, ours):
        super().__init__(what)
        self.what, self.text, self.ours = what, text, ours


def digest(paths, *extra):
    h = hashlib.sha256()
    for x in extra:
        h.update(repr(x).encode())
    for p in sorted(paths):
        h.update(str(p).encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:24]


def headers():
    hs = [p for d in (LIB / "exact-real", LIB / "src") for p in d.rglob("*") if p.is_file() and p.suffix in (".hpp", ".ipp", ".h", ".in")]
    hs += [p for p in (VERIF / "shim").rglob("*") if p.is_file()]
    return hs


def make_local(inc):
    """What configure does for exact-real/local.hpp."""
    inc.mkdir(parents=True, exist_ok=True)
    text = (LIB / "exact-real" / "local.hpp.in").read_text().replace("@libdir@", "/usr/local/lib")
    out = inc / "local.hpp"
    if not out.exists() or out.read_text() != text:
        tmp = inc / f"local.hpp.{os.getpid()}"
        tmp.write_text(text)
        tmp.rename(out)


def compile_one(cc, flags, src, key, ours):
    """Compile src to an object named by what went into it."""
    obj = BUILD / "obj" / f"{src.stem}-{key}.o"
    if obj.exists():
        return obj
    tmp = obj.with_suffix(f".{os.getpid()}.tmp.o")
    for attempt in range(2):
        r = subprocess.run(cc + flags + ["-c", str(src), "-o", str(tmp)], capture_output=True, text=True)
        if r.returncode == 0:
            tmp.rename(obj)
            return obj
        # A compiler that was killed (memory) is not a verdict about the code.
        if "error:" not in r.stderr:
            continue
    raise BuildError(str(src), r.stderr, ours)


def build(harness, seed, fuzz=False):
    """Build a harness against the current tree; returns the path of the binary."""
    try:
        return build_with(harness, seed, fuzz, HARNESSES[harness].get("sources"))
    except BuildError as e:
        # The part of the library a harness needs might have moved.
        if e.what == harness and HARNESSES[harness].get("sources") is not None:
            return build_with(harness, seed, fuzz, None)
        raise


def build_with(harness, seed, fuzz, sources):
    spec = HARNESSES[harness]
    (BUILD / "obj").mkdir(parents=True, exist_ok=True)
    inc = BUILD / "inc"
    make_local(inc)
    cc = CLANG if fuzz else GXX
    flags = ["-std=c++17", "-w", "-DBUILD_LIBEXACTREAL", f"-I{inc}", f"-I{VERIF}/shim/exact-real-inc", f"-I{VERIF}/shim/src-inc", f"-I{LIB}/src", f"-I{VERIF}/harness"]
    hs = headers()
    base = digest(hs, cc, flags)
    myh = [p for p in (VERIF / "harness").glob("*.hpp")]
    libsrc = sorted((LIB / "src").glob("*.cc"))
    if sources is not None:
        libsrc = [p for p in libsrc if p.stem in sources]
    mine = [VERIF / "harness" / "pbt_main.cc"] + [VERIF / "harness" / f"{f}.cc" for f in spec["files"]]
    generated = []
    if "generate" in spec:
        gen = VERIF / "harness" / spec["generate"][0]
        gdir = BUILD / "gen" / f"{harness}-{seed}-{digest([gen], seed, spec['generate'])}"
        if not (gdir / "done").exists():
            gdir.mkdir(parents=True, exist_ok=True)
            subprocess.run([sys.executable, str(gen), str(gdir), str(seed)] + spec["generate"][1:], check=True)
            (gdir / "done").write_text("")
        generated = sorted(gdir.glob("*.cc"))
    jobs = []
    for p in mine + generated:
        jobs.append((cc, flags, p, digest([p] + myh, base), p.name != "pbt_main.cc"))
    for p in libsrc:
        jobs.append((cc, flags, p, digest([p], base), False))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = BUILD / f"{harness}-{'fuzz-' if fuzz else ''}{digest([], [str(o) for o in objs])}"
    if not exe.exists():
        tmp = exe.with_suffix(f".{os.getpid()}")
        link = [x.replace("fuzzer-no-link", "fuzzer") for x in cc]
        r = subprocess.run(link + [str(o) for o in objs] + LIBS + ["-o", str(tmp)], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(harness, r.stderr, "undefined reference" in r.stderr)
        tmp.rename(exe)
    return exe


def known_findings():
    """Lines `known: property=<id> relation=<probe> <text>` of known-findings.txt."""
    out = []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                parts = line[len("known: "):].split(" ", 2)
                out.append({"property": parts[0].split("=")[1], "relation": parts[1].split("=")[1], "text": parts[2]})
    return out


def run(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPERTIES[prop]
    start = time.time()
    violations = []
    relations = []
    notes = []
    REPLAYS.mkdir(exist_ok=True)
    known = {k["relation"]: k for k in known_findings() if k["property"] == prop}

    for harness in spec["harness"]:
        runs = [(seed, spec.get("scale", 1.0))]
        if tier == "thorough":
            runs = [(seed + 1000003 * k, spec.get("scale", 1.0) * spec.get("thorough", 4)) for k in range(spec.get("seeds", 3))]
        for s, scale in runs:
            try:
                exe = build(harness, s)
            except BuildError as e:
                log(f"build of {e.what} failed:\n{e.text[:6000]}")
                if not e.ours:
                    return 2
                # The library builds but documented uses of its interface do not.
                path = REPLAYS / f"{prop}-build.json"
                path.write_text(json.dumps({"property": prop, "harness": harness, "seed": s, "build": e.text[:20000]}, indent=1))
                violations.append((str(path), f"documented operations no longer compile ({e.what})"))
                break
            out = BUILD / f"out-{prop}-{os.getpid()}.json"
            r = subprocess.run([str(exe), "--prop", prop, "--seed", str(s), "--scale", str(scale), "--jobs", str(JOBS), "--out", str(out), "--replaydir", str(REPLAYS)])
            if r.returncode not in (0, 1) or not out.exists():
                log(f"runner ended with status {r.returncode}")
                return 2
            data = json.loads(out.read_text(errors="replace"))
            out.unlink()
            for rel in data["relations"]:
                rel["harness"], rel["seed"] = harness, s
                relations.append(rel)
                if "unconfirmed" in rel:
                    notes.append(f"{rel['name']}: not reproduced and ignored: {rel['unconfirmed'][:300]}")
                f = rel.get("failure")
                if rel["name"] in known:
                    if f:
                        log(f"KNOWN-FINDING: property={prop} {known[rel['name']]['text']}")
                    continue
                if f:
                    p = pathlib.Path(f["replay"])
                    d = json.loads(p.read_text())
                    d["harness"] = harness
                    d["build_seed"] = s
                    p.write_text(json.dumps(d, indent=1))
                    violations.append((str(p), f"{rel['name']}: {f['message']} | {f['case'][:600]}"))
            if violations:
                break
    if tier == "thorough" and not violations:
        violations += fuzz(prop, spec, seed, relations, notes)

    for n in notes:
        log("note:", n)
    samples, seen = [], set()
    for rel in relations:
        if rel["name"] in seen:
            continue
        seen.add(rel["name"])
        samples += [f"{rel['name']}: {x}" for x in rel["samples"][:2]]
    rules = {r["name"]: r["rule"] for r in relations}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] - r["discarded"] for r in relations),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in relations),
            "rule": "Cases are drawn at random from a structured generator per relation; non-trivial cases are counted once per distinct input. " + "; ".join(f"{k}: {v}" for k, v in rules.items()),
            "samples": samples or ["none"],
            "relations": [{k: r[k] for k in ("name", "seed", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "classes") if k in r} for r in relations],
        },
        "assumptions": spec.get("assumptions", []) + ["GMP, FLINT, e-antic and the compiler are correct"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False) + "\n")
    log(f"{prop} {tier} seed={seed}: {evidence['coverage']['evaluations']} cases, {evidence['coverage']['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
    for path, text in violations:
        log(f"  {text}")
        log(f"VIOLATION property={prop} replay={path}")
    return 1 if violations else 0


def fuzz(prop, spec, seed, relations, notes):
    """Coverage-guided search over the same relations."""
    secs = spec.get("fuzz_seconds", 60)
    known = {k["relation"] for k in known_findings()}
    todo = []
    for harness in spec["harness"]:
        if HARNESSES[harness].get("nofuzz"):
            continue
        exe = build(harness, seed, fuzz=True)
        for name in dict.fromkeys(r["name"] for r in relations if r["harness"] == harness):
            if name not in known:
                todo.append((harness, exe, name))

    def campaign(t):
        harness, exe, name = t
        d = BUILD / f"fuzz-{name}-{os.getpid()}"
        (d / "corpus").mkdir(parents=True)
        env = dict(os.environ, PBT_RELATION=name, PBT_FAILFILE=str(d / "fail"))
        r = subprocess.run([str(exe), f"-seed={seed % 4294967295 or 1}", f"-max_total_time={secs}", "-max_len=2048", "-timeout=300", "-rss_limit_mb=4000", "-verbosity=1", "-print_final_stats=1", f"-artifact_prefix={d}/", str(d / "corpus")], env=env, capture_output=True, text=True, errors="replace")
        stats = {ln.split(":")[0].replace("stat::", "").strip(): ln.split(":")[-1].strip() for ln in r.stderr.splitlines() if ln.startswith("stat::")}
        choices = (d / "fail").read_text().split() if (d / "fail").exists() else None
        artifacts = [p.name for p in d.glob("crash-*")]
        shutil.rmtree(d)
        return harness, name, r.returncode, stats, choices, artifacts, r.stderr[-3000:]

    out = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for harness, name, rc, stats, choices, artifacts, err in ex.map(campaign, todo):
            for r in relations:
                if r["name"] == name:
                    r.setdefault("classes", {})["libFuzzer executions"] = int(stats.get("number_of_executed_units", 0) or 0)
                    break
            if rc == 0:
                continue
            if choices is None:
                notes.append(f"{name}: libFuzzer ended with {rc} without a property failure: {artifacts} {err[-500:]}")
                continue
            # Confirm with the ordinary runner.
            exe = build(harness, seed)
            nums = BUILD / f"choices-{name}-{os.getpid()}"
            nums.write_text(" ".join(choices))
            res = [subprocess.run([str(exe), "--relation", name, "--replay", str(nums)], capture_output=True, text=True) for _ in range(3)]
            nums.unlink()
            if all(x.returncode == 1 for x in res):
                path = REPLAYS / f"{prop}-{name}.json"
                path.write_text(json.dumps({"property": prop, "relation": name, "harness": harness, "seed": seed, "build_seed": seed, "message": res[0].stdout, "choices": [int(x) for x in choices]}, indent=1))
                out.append((str(path), f"{name}: {res[0].stdout[:800]}"))
            else:
                notes.append(f"{name}: libFuzzer failure did not replay")
    return out


def replay(path):
    d = json.loads(pathlib.Path(path).read_text())
    if "build" in d:
        try:
            build(d["harness"], d["seed"])
        except BuildError as e:
            log(e.text[:6000])
            log(f"VIOLATION property={d['property']} replay={path}")
            return 1
        log("builds")
        return 0
    exe = build(d["harness"], d["build_seed"])
    nums = BUILD / f"replay-{os.getpid()}"
    extra = []
    if "history_from" in d and not d["choices"]:
        nums.write_text(f"{d['history_from']} {d['history_to']}")
        extra = ["--history", "--seed", str(d["seed"])]
    else:
        nums.write_text(" ".join(str(x) for x in d["choices"]))
    r = subprocess.run([str(exe), "--relation", d["relation"], "--replay", str(nums)] + extra, capture_output=True, text=True)
    nums.unlink()
    log(r.stdout + r.stderr)
    if r.returncode == 1:
        log(f"VIOLATION property={d['property']} replay={path}")
    return r.returncode


def setup():
    for h in HARNESSES:
        build(h, int(os.environ.get("VERIF_SEED", "1") or 1))
        log("built", h)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "run":
        sys.exit(run(sys.argv[2]))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        sys.exit(setup())
    sys.exit(2)
