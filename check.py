#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] | check.py --replay FILE | check.py --setup"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AESI_REPO", "/repo")
sys.path.insert(0, ROOT)
BUILD, REPLAYS, EVID = (os.path.join(ROOT, d) for d in ("build", "replays", "evidence"))
JOBS = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
WALL_QUICK, WALL_THOROUGH = 420, 560          # wall guards for the generation phase, far above the normal run time


class CompileError(Exception):
    def __init__(self, cmd, log): super().__init__(log); self.cmd, self.log = cmd, log


def sh(cmd, timeout=800, **kw):
    return subprocess.run([c.replace("{ROOT}", ROOT) for c in cmd], capture_output=True, text=True, errors="backslashreplace", timeout=timeout, **kw)


def tree_digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, subdirs, files in sorted(os.walk(d)):
            subdirs.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, d).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def mine_dictionary():
    """integer literals of the code under test become dictionary choices of the generators"""
    vals = {0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}
    for base, _, files in os.walk(os.path.join(REPO, "include")):
        for f in files:
            text = open(os.path.join(base, f), errors="backslashreplace").read()
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?:[uUlLzZ]*)(?![\w.])", text):
                t = m.group(1).replace("'", "")
                try: v = int(t, 0)
                except ValueError: v = int(t)
                if v < 1 << 64: vals.add(v)
    return sorted(vals)


def prepare():
    for d in (BUILD, REPLAYS, EVID): os.makedirs(d, exist_ok=True)
    text = "\n".join(f"{v}ULL," for v in mine_dictionary()) + "\n"
    p = os.path.join(BUILD, "dict.inc")
    if not os.path.exists(p) or open(p).read() != text: open(p, "w").write(text)
    return hashlib.sha256((tree_digest(os.path.join(REPO, "include"), os.path.join(ROOT, "harness")) + text).encode()).hexdigest()


BASE = ["-std=gnu++20", "-w", "-pthread", f"-I{ROOT}/harness", f"-I{BUILD}", f"-I{REPO}/include"]
GXX = ["g++"] + BASE + ["-O1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DAESI_GMP_INTEGRATION"]
SAN = {
    "": [],
    "asan": ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-g1", "-fsanitize=thread"],
}


CLANG = ["clang++"] + BASE + ["-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DAESI_GMP_INTEGRATION", "-fsanitize=address,undefined", "-fno-sanitize=object-size,null,alignment,vptr", "-fno-sanitize-recover=undefined"]


def compile_all(jobs, digest):
    """jobs: list of (cmd without -o, source, output). Parallel; content-hash cached. Raises CompileError after a second failing attempt."""
    def one(job):
        cmd, src, out = job
        key = hashlib.sha256((digest + " ".join(cmd) + open(src).read()).encode()).hexdigest()
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return None
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = sh(cmd + ["-c", src, "-o", out])
        if r.returncode: return (cmd + ["-c", src, "-o", out], r.stderr[:20000], job)
        open(stamp, "w").write(key); return None
    with cf.ThreadPoolExecutor(JOBS) as ex: bad = [x for x in ex.map(one, jobs) if x]
    for cmd, log, job in bad:          # once more, one at a time: a transient failure must not look like a broken property
        again = one(job)
        if again and re.search(r"Killed|internal compiler error|No space left|out of memory|cannot allocate", again[1]): raise RuntimeError("the compiler itself failed: " + again[1][-800:])
        if again: raise CompileError(again[0], again[1])


def link(cmd, objs, out, libs=("-lgmpxx", "-lgmp")):
    r = sh(cmd + objs + list(libs) + ["-o", out])
    if r.returncode:
        r = sh(cmd + objs + list(libs) + ["-o", out])
        if r.returncode: raise CompileError(cmd + objs + ["-o", out], r.stderr[:20000])


def build_pbt(pid, spec, digest):
    cmd = (CLANG if spec.get("compiler") == "clang++" else GXX + SAN[spec.get("san", "")]) + spec.get("flags", [])
    d = os.path.join(BUILD, pid); groups = spec.get("groups", 8); jobs, objs = [], []
    src = os.path.join(ROOT, "props", spec["src"])
    for g in range(groups):
        o = f"{d}/g{g}.o"; objs.append(o); jobs.append((cmd + [f"-DGROUPS={groups}", f"-DGROUP={g}"], src, o))
    o = f"{d}/engine.o"; objs.append(o); jobs.append((cmd, os.path.join(ROOT, "harness", "engine.cpp"), o))
    compile_all(jobs, digest); exe = f"{d}/run"; link(cmd, objs, exe); return exe


def san_env():
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99"; e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"; e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    return e


def run_pbt(pid, spec, tier, exe):
    out = os.path.join(BUILD, pid, "report.json"); tmp = tempfile.mkdtemp(prefix="w-", dir=os.path.join(BUILD, pid))
    scale = spec.get("scale", 1.0) * (spec.get("thorough", 10.0) if tier == "thorough" else 1.0) * float(os.environ.get("CASE_SCALE", "1"))
    if os.path.exists(out): os.remove(out)
    try:
        wall = WALL_THOROUGH if tier == "thorough" else WALL_QUICK
        r = sh([exe, "--prop", pid, "--seed", str(SEED), "--scale", str(scale), "--jobs", str(JOBS), "--out", out, "--replays", REPLAYS, "--tmp", tmp, "--wall", str(wall)], env=san_env(), timeout=wall + 250)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(out): raise RuntimeError(f"engine gave no report: {r.returncode} {r.stdout[-500:]} {r.stderr[-500:]}")
    return json.load(open(out))


def run_fuzz(pid, spec, digest, exe, seconds):
    """thorough tier: the same property bodies driven by coverage-guided libFuzzer under ASan+UBSan"""
    d = os.path.join(BUILD, pid, "fuzz"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    cmd = CLANG + ["-DENGINE_FUZZ", "-fsanitize=fuzzer"] + spec.get("flags", [])
    jobs, objs = [], []
    for g in range(8):
        o = f"{d}/g{g}.o"; objs.append(o); jobs.append((cmd + ["-DGROUPS=8", f"-DGROUP={g}"], os.path.join(ROOT, "props", spec["src"]), o))
    o = f"{d}/engine.o"; objs.append(o); jobs.append((cmd, os.path.join(ROOT, "harness", "engine.cpp"), o))
    compile_all(jobs, digest); fz = f"{d}/fuzz"; link(cmd, objs, fz)
    env = san_env(); env["FUZZ_OUT"] = d; env["FUZZ_PROP"] = pid
    procs = []
    for j in range(JOBS):
        c = f"{d}/corpus{j}"; os.makedirs(c)
        procs.append(subprocess.Popen([fz, c, f"-seed={SEED * 1000 + j + 1}", f"-max_total_time={seconds}", "-max_len=600", "-timeout=60", "-rss_limit_mb=3000", f"-artifact_prefix={d}/art{j}-", "-print_final_stats=1", "-verbosity=0"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="backslashreplace"))
    execs = 0; logs = []
    for p in procs:
        try: _, err = p.communicate(timeout=seconds + 200)
        except subprocess.TimeoutExpired: p.kill(); _, err = p.communicate()
        logs.append(err or "")
        m = re.search(r"number_of_executed_units:\s*(\d+)", err or ""); execs += int(m.group(1)) if m else 0
    found = sorted(f for f in os.listdir(d) if f.endswith(".replay"))
    for f in found:                       # a finding counts only if the ordinary binary reproduces it three times
        dst = os.path.join(REPLAYS, f"{pid}-fuzz-{f}"); shutil.copy(os.path.join(d, f), dst)
        text = open(dst).read(); open(dst, "w").write(text.replace("\nfound-by", "\ncompiler clang++\nfound-by", 1))   # the order in which arguments are drawn differs between compilers
        again = build_pbt(pid + "-clang", dict(spec, compiler="clang++"), digest)
        if all(sh([again, "--replay", dst], env=san_env()).returncode == 1 for _ in range(3)): return execs, dst, ""
    shutil.rmtree(d, ignore_errors=True)
    return execs, None, ""


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.txt"); out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def write_evidence(pid, tier, level, coverage, assumptions, violations):
    doc = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.tmp"); json.dump(doc, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(EVID, f"{pid}.json"))


def violation(pid, replay):
    print(f"VIOLATION property={pid} replay={replay}", flush=True); sys.exit(1)


def compile_violation(pid, tier, err):
    p = os.path.join(REPLAYS, f"{pid}-compile.replay")
    open(p, "w").write(f"property {pid}\nmessage the documented API used by this property no longer compiles\ncommand {' '.join(err.cmd)}\n\n{err.log}\n")
    write_evidence(pid, tier, "exploration", {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the harness that uses the documented API must compile against the headers", "samples": [err.log[:1500]]}, [], 1)
    print(err.log[:3000]); violation(pid, p)


def main():
    args = sys.argv[1:]
    from specs import SPECS
    if args and args[0] == "--setup":
        prepare(); print("ok"); return 0
    if args and args[0] == "--replay":
        pid = next((l.split()[1] for l in open(args[1]) if l.startswith("property ")), None); digest = prepare(); spec = SPECS[pid]
        if "module" in spec: return __import__(spec["module"]).replay(sys.modules[__name__], pid, spec, args[1], digest)
        if any(l.strip() == "compiler clang++" for l in open(args[1])): pid += "-clang"; spec = dict(spec, compiler="clang++")
        r = sh([build_pbt(pid, spec, digest), "--replay", args[1]], env=san_env()); print(r.stdout); return r.returncode
    pid = args[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    spec = SPECS[pid]; digest = prepare()
    if "module" in spec:
        try: return __import__(spec["module"]).run(sys.modules[__name__], pid, spec, tier, digest)
        except CompileError as e: compile_violation(pid, tier, e)
    try: exe = build_pbt(pid, spec, digest)
    except CompileError as e: compile_violation(pid, tier, e)
    rep = run_pbt(pid, spec, tier, exe)
    cov = {"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"], "rule": spec["rule"], "samples": rep["samples"] or [rep["message"]],
           "labels": rep["labels"], "cases_per_entry": rep["per_entry"], "truncated_by_wall_guard": rep["truncated"], "unreproduced": rep["unreproduced"], "generation_wall_s": rep["wall_s"]}
    viol = rep["violation"]; msg = rep["message"]
    if not viol and tier == "thorough" and spec.get("fuzz", True):
        left = 840 - (time.time() - T0)
        secs = int(min(spec.get("fuzz_seconds", 150), left - 300))
        if secs >= 30:
            execs, viol2, msg2 = run_fuzz(pid, spec, digest, exe, secs)
            cov["coverage_guided_executions"] = execs
            if viol2: viol, msg = viol2, "found by libFuzzer"
    if viol and "exhaustive" in cov: del cov["exhaustive"]
    write_evidence(pid, tier, "exploration", cov, spec.get("assumptions", []), 1 if viol else 0)
    for key, what in known_findings(pid): print(f"KNOWN-FINDING: property={pid} {what}")
    if viol:
        print(msg); print(open(viol).read()[:3000]); violation(pid, viol)
    print(f"{pid} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {time.time() - T0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
