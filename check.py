#!/usr/bin/env python3
"""Decides one property: check.py ID quick|thorough, or check.py --replay FILE.

Builds /verif/harness/ID.cpp against /repo's working tree in several configurations (instruction sets, sanitizers),
runs the generated-input search, writes evidence/ID.json and prints KNOWN-FINDING / VIOLATION lines.
Exit status: 0 held on everything explored, 1 violation, 3 no answer (the harness could not be built or run)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=float-cast-overflow,shift-base", "-fno-omit-frame-pointer"]
CLANG = ["clang++", "-O1", "-g1"] + SAN
CONFIGS = {
    "sse2": CLANG,
    "sse41": CLANG + ["-msse4.1"],
    "avx2": CLANG + ["-march=haswell"],
    "gcc-avx2": ["g++", "-O2", "-march=haswell", "-DNDEBUG"],
    "gcc-sse2": ["g++", "-O2"],
    "scalar": CLANG + ["-DPBT_SCALAR=1"],
    "tsan": ["clang++", "-O1", "-g1", "-fsanitize=thread", "-march=haswell", "-fno-omit-frame-pointer"],
    "tsan-scalar": ["clang++", "-O1", "-g1", "-fsanitize=thread", "-DPBT_SCALAR=1", "-fno-omit-frame-pointer"],
    "neon": CLANG + ["-DPBT_NEON=1", "-fno-lax-vector-conversions", "-I" + os.path.join(HERE, "fw", "neon")],
}
COMMON = ["-std=c++17", "-ffp-contract=off", "-fwrapv", "-w", "-D_USE_MATH_DEFINES", "-DNOMINMAX"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:handle_segv=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97:report_signal_unsafe=0:atexit_sleep_ms=0")

def load_props():
    with open(os.path.join(HERE, "harness", "props.json")) as f:
        return json.load(f)

def repo_sources():
    d = os.path.join(REPO, "source")
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(".cpp"))

def build(pid, conf, spec, tmp, fuzz=False, extra=()):
    exe = os.path.join(tmp, conf)
    cmd = list(CONFIGS[conf])
    if fuzz:
        cmd = [a.replace("address,undefined", "fuzzer,address,undefined") for a in cmd] + ["-DPBT_LIBFUZZER"]
        exe += "-fuzz"
    if spec.get("no_align_check"):
        cmd += ["-fno-sanitize=alignment"] if cmd[0] == "clang++" else []
    cmd += list(extra) + COMMON + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "fw")]
    cmd += [os.path.join(HERE, "harness", spec.get("harness", pid) + ".cpp"), "-o", exe]
    # With the portable implementation the sources see the same headers first: fw/math.hpp hides the CPU from them.
    sources = (["-include", os.path.join(HERE, "fw", "math.hpp")] if conf in ("scalar", "neon", "tsan-scalar") else []) + repo_sources()
    for with_sources in ((True,) if spec.get("link_repo") else (False, True)):
        p = subprocess.run(cmd + (sources if with_sources else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=tmp)
        if "undefined reference" not in p.stdout: break # else a function of a header has moved to a source file
    return (exe if p.returncode == 0 else None), p.stdout

def run(exe, args, tmp, timeout):
    d = tempfile.mkdtemp(dir=tmp)
    # Locals keep their addresses from case to case (what is remembered by address shows), except where uses of dead locals are looked for.
    env = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":detect_stack_use_after_return=%d" % ("sse41" in os.path.basename(exe)))
    try:
        p = subprocess.run([exe] + args + ["--tmp", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=env, cwd=d, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def known_findings(pid):
    """known-findings.txt: 'known: property=ID key=KEY what fails' or 'fixed: property=ID COMMIT what failed'."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def replay_text(law, fail):
    """The input of --replay: the law, the cases that come first (each closed by a bar), and the failing one."""
    return law + "\n" + "".join(" ".join(map(str, w)) + " |\n" for w in fail.get("warm", [])) + " ".join(map(str, fail["choices"])) + "\n"

def confirm(exe, law, fail, tmp):
    """Replays a failing choice sequence three times in fresh processes."""
    f = os.path.join(tmp, "confirm-%s.txt" % law)
    with open(f, "w") as h:
        h.write(replay_text(law, fail))
    return sum(run(exe, ["--replay", f], tmp, 120)[0] == 1 for _ in range(3))

def again(exe, law, args, tmp, times):
    """Repeats the search of one law, a pure function of its arguments, in fresh processes: how often it fails."""
    return sum(run(exe, args + ["--law", law, "--out", os.path.join(tmp, "again.json")], tmp, 300)[0] == 1 for _ in range(times))

def fuzz_stage(pid, spec, tmp, runs, keys, seed):
    """Coverage-guided search over the same laws (thorough tier). Returns (executions, failures)."""
    exe, log = build(pid, spec.get("fuzz_config", "avx2"), spec, tmp, fuzz=True)
    if not exe:
        return 0, [], "fuzzer build failed: " + log[-400:]
    results = []
    def one(i):
        d = tempfile.mkdtemp(dir=tmp); corpus = os.path.join(d, "c"); os.mkdir(corpus)
        env = dict(ENV, PBT_KNOWN=",".join(keys))
        p = subprocess.run([exe, corpus, "-runs=%d" % runs, "-seed=%d" % (seed * 100 + i + 1), "-max_len=1024", "-artifact_prefix=" + d + "/",
                            "-print_final_stats=1", "-use_value_profile=1", "-max_total_time=240", "-timeout=60"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=d)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", p.stdout)
        arts = [os.path.join(d, f) for f in os.listdir(d) if re.match(r"(crash|timeout|oom)-", f)]
        return (int(m.group(1)) if m else 0), arts, p.stdout[-600:]
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, range(8)))
    return sum(r[0] for r in results), [a for r in results for a in r[1]], ""

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = load_props()[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    try:
        return decide(pid, tier, seed, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, tier, seed, spec, tmp, t0):
    confs = spec["configs"]
    with ThreadPoolExecutor(8) as ex:
        built = dict(zip(confs, ex.map(lambda c: build(pid, c, spec, tmp), confs)))
    t_build = time.time() - t0
    notes, exes = [], {}
    for c in confs:
        if built[c][0] and c.startswith("tsan") and run(built[c][0], ["--law", "-"], tmp, 60)[0] != 0:
            notes.append("the thread sanitizer does not run here: %s was skipped" % c)
        elif built[c][0]: exes[c] = built[c][0]
        elif c in ("scalar", "neon"): notes.append("the configuration %s does not compile on this tree and was skipped" % c)
        else:
            print("cannot build the harness of %s in configuration %s:\n%s" % (pid, c, built[c][1][-3000:]))
            return 3
    cases = spec["cases"] * (spec.get("thorough_factor", 25) if tier == "thorough" else 1)
    known = known_findings(pid)
    keys = [k for k, _ in known]
    workers = 8 if tier == "thorough" else 4
    reports, broken = {}, None
    failed = []
    def go(c):
        if failed: return c, [], ""  # a configuration already has a violation: the others would only repeat it
        out = os.path.join(tmp, c + ".json")
        rc, log = run(exes[c], ["--seed", str(seed), "--cases", str(cases), "--workers", str(workers), "--out", out, "--known", ",".join(keys)], tmp,
                      3400 if tier == "thorough" else 800)
        if rc not in (0, 1) or not os.path.exists(out): return c, None, "exit %d\n%s" % (rc, log[-2000:])
        with open(out) as f: rep = json.load(f)
        if rc == 1: failed.append(c)
        return c, rep, ""
    with ThreadPoolExecutor(2 if tier == "quick" else 1) as ex:
        for c, rep, err in ex.map(go, list(exes)):
            if rep is None: broken = "%s: %s" % (c, err)
            else: reports[c] = rep
    fails = []
    for c, rep in reports.items():
        for l in rep:
            if "fail" in l: fails.append((c, l["law"], l["fail"]))
    fuzz_execs = 0
    if tier == "thorough" and not fails and not broken:
        fuzz_execs, arts, note = fuzz_stage(pid, spec, tmp, spec.get("fuzz_runs", 400000), keys, seed)
        if note: notes.append(note)
        fc = spec.get("fuzz_config", "avx2")
        for a in arts:
            out = os.path.join(tmp, "fuzzfail.json")
            rc, log = run(exes[fc], ["--bytes", a, "--out", out, "--known", ",".join(keys)], tmp, 300)
            if rc == 1 and os.path.exists(out):
                for l in json.load(open(out)):
                    if "fail" in l: fails.append((fc, l["law"], dict(l["fail"], fuzzed=True)))
    violations = []
    seen = set()
    edir = os.environ.get("PBT_EVIDENCE", os.path.join(HERE, "evidence"))
    rdir = os.path.join(edir, "replays"); os.makedirs(rdir, exist_ok=True)
    for c, law, f in fails:
        n, search = confirm(exes[c], law, f, tmp), None
        if n == 0 and "case" in f and not f.get("fuzzed") and len(violations) < 2 and time.time() - t0 < 500:
            # What earlier cases left behind cannot always be cut down to a list of cases (it may depend on addresses): the whole search is the replay then.
            search = ["--seed", str(seed), "--cases", str(cases), "--workers", str(workers), "--known", ",".join(keys)]
            n = again(exes[c], law, search, tmp, 2)
            n = n if n == 2 else 0
        if n == 0:
            notes.append("law %s in %s failed once (%s) but its replay passed three times: not reported" % (law, c, f["message"][:200]))
            continue
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, law, c))
        with open(path, "w") as h:
            json.dump(dict(property=pid, law=law, config=c, seed=seed, search=search, choices=f["choices"], warm=f.get("warm", []), input=f["input"], message=f["message"],
                           confirmed="%d of %d" % (n, 2 if search else 3)), h, indent=1)
        violations.append((c, law, f, path))
    # evidence
    laws = {}
    for c, rep in reports.items():
        for l in rep:
            a = laws.setdefault(l["law"], dict(law=l["law"], rule=l["rule"], evaluations=0, discarded=0, distinct_nontrivial=0, classes={}, configs=[], max_err_ratio=0, samples=l["samples"]))
            a["evaluations"] += l["evaluations"]; a["discarded"] += l["discarded"]
            a["distinct_nontrivial"] = max(a["distinct_nontrivial"], l["distinct"])
            a["configs"].append(c); a["max_err_ratio"] = max(a["max_err_ratio"], l["max_err_ratio"])
            for k, v in l["classes"].items(): a["classes"][k] = a["classes"].get(k, 0) + v
    hits = {}
    for rep in reports.values():
        for l in rep:
            for k, v in l["known"].items(): hits[k] = hits.get(k, 0) + v
    total = sum(a["evaluations"] for a in laws.values()) + fuzz_execs
    samples = []
    for a in laws.values():
        for sm in a["samples"][:2]: samples.append("%s: %s" % (a["law"], sm))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total, distinct_nontrivial=sum(a["distinct_nontrivial"] for a in laws.values()),
                            rule="a case counts once per distinct choice sequence when it meets its law's rule: " +
                                 "; ".join("%s: %s" % (a["law"], a["rule"]) for a in laws.values()),
                            samples=samples[:40], laws=list(laws.values()), configurations=list(exes), fuzz_executions=fuzz_execs),
              wall_s=round(time.time() - t0, 2),
              assumptions=spec.get("assumptions", []) + notes + ["built and run with: " + ", ".join(exes)],
              violations=[dict(law=l, config=c, message=f["message"][:600], input=f["input"][:600], replay=p) for c, l, f, p in violations])
    with open(os.path.join(edir, pid + ".json"), "w") as h: json.dump(ev, h, indent=1)
    for n in notes: print("note:", n)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d laws, %s; build %.1fs total %.1fs" % (pid, tier, seed, total,
          ev["coverage"]["distinct_nontrivial"], len(laws), "+".join(exes), t_build, time.time() - t0))
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s (%d generated cases hit it)" % (pid, what, hits.get(k, 0)))
    for c, law, f, path in violations:
        print("  law %s in %s: %s\n    input: %s" % (law, c, f["message"].split("\n")[0][:400], f["input"][:600]))
    if violations:
        for c, law, f, path in violations:
            if law not in seen: print("VIOLATION property=%s replay=%s" % (pid, path))
            seen.add(law)
        return 1
    if broken:
        print("the harness did not finish:", broken); return 3
    return 0

def replay(path):
    r = json.load(open(path)); spec = load_props()[r["property"]]
    tmp = tempfile.mkdtemp(prefix="pbt-replay-")
    try:
        exe, log = build(r["property"], r["config"], spec, tmp)
        if not exe: print(log); return 3
        f = os.path.join(tmp, "r.txt"); open(f, "w").write(replay_text(r["law"], r))
        if r.get("search"): rc, out = again(exe, r["law"], r["search"], tmp, 1), r["message"]
        else: rc, out = run(exe, ["--replay", f], tmp, 120)
        print(out)
        if rc == 1: print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
