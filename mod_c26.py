"""C26: generated programs over the whole API give the same trace in every build configuration (differential)."""
import concurrent.futures as cf, hashlib, os, shutil, subprocess, sys, time

def configs(D):
    b = ["-w", "-pthread", f"-I{D.ROOT}/harness", f"-I{D.REPO}/include"]
    g, c = ["g++", "-std=gnu++20"] + b, ["clang++", "-std=gnu++20"] + b
    return {
        "reference g++ -O1": g + ["-O1"],
        "g++ -O0, no exceptions, no RTTI, debug macros": g + ["-O0", "-fno-exceptions", "-fno-rtti", "-D_DEBUG", "-DDEBUG", "-fno-pie", "-no-pie"],
        "g++ -O2 -DNDEBUG -fopenmp": g + ["-O2", "-DNDEBUG", "-fopenmp"],
        "g++ -O3 -std=c++23": ["g++", "-std=c++23"] + b + ["-O3"],
        "clang++ -O0": c + ["-O0"],
        "clang++ -O2, old string ABI": c + ["-O2", "-D_GLIBCXX_USE_CXX11_ABI=0", "-fno-math-errno", "-ffunction-sections"],
        "AESI_UNSAFE": g + ["-O1", "-DAESI_UNSAFE"],
        "AESI_UNSAFE NDEBUG clang++ -O2": c + ["-O2", "-DAESI_UNSAFE", "-DNDEBUG"],
        "PRE_CPP_20": g + ["-O1", "-DPRE_CPP_20"],
        "AESI_GMP_INTEGRATION": g + ["-O1", "-DAESI_GMP_INTEGRATION"],
        "g++ -Os -std=c++20": ["g++", "-std=c++20"] + b + ["-Os"],
        "g++ -Og libstdc++ assertions and debug mode": g + ["-Og", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-D_FORTIFY_SOURCE=2"],
        "clang++ -O3 -std=c++26 -march=native": ["clang++", "-std=c++2c"] + b + ["-O3", "-march=native"],
        "g++ -Ofast -march=native PRE_CPP_20 AESI_UNSAFE NDEBUG": g + ["-Ofast", "-march=native", "-DPRE_CPP_20", "-DAESI_UNSAFE", "-DNDEBUG"],
        "unsigned plain char": g + ["-O1", "-funsigned-char"],
        "CUDA (host emulation)": g + ["-O1", "-D__CUDACC__", f"-I{D.ROOT}/harness/cuda_stub"],
        "CUDA device macros (host emulation, clang++)": c + ["-O1", "-D__CUDACC__", "-D__CUDA_ARCH__=800", "-D__NVCC__", f"-I{D.ROOT}/harness/cuda_stub"],
        "hardening switches, every integration macro": g + ["-O2", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all", "-fwrapv", "-fno-strict-aliasing", "-DAESI_GMP_INTEGRATION", "-DAESI_CRYPTOPP_INTEGRATION", "-D_REENTRANT", "-fsanitize=address"],
    }

def build(D, digest, tag="C26"):
    d = os.path.join(D.BUILD, tag); os.makedirs(d, exist_ok=True); src = os.path.join(D.ROOT, "props", "soup_main.cpp"); jobs = []; exes = {}
    for k, (name, cmd) in enumerate(configs(D).items()):
        jobs.append((cmd, src, f"{d}/cfg{k}.o")); exes[name] = (cmd, f"{d}/cfg{k}")
    D.compile_all(jobs, digest)
    for name, (cmd, exe) in exes.items(): D.link(cmd, [exe + ".o"], exe)
    return {n: e for n, (c, e) in exes.items()}

def chunk(exe, seed, frm, n, timeout=60):
    try: r = subprocess.run([exe, "gen", str(seed), str(frm), str(n)], capture_output=True, text=True, errors="backslashreplace", timeout=timeout); return r.stdout.splitlines(), r.returncode
    except subprocess.TimeoutExpired as e: return ((e.stdout or b"").decode().splitlines()), "timeout"

def serve(exe, tapes, timeout=60):
    try: r = subprocess.run([exe, "serve"], input="\n".join(" ".join(map(str, t)) for t in tapes) + "\n", capture_output=True, text=True, errors="backslashreplace", timeout=timeout); return r.stdout.splitlines()
    except subprocess.TimeoutExpired: return []

def result(exe, tape): o = serve(exe, [tape], 15); return o[0].split()[0] if o else "no result (crash or hang)"
def differ(a, b, tape): x, y = result(a, tape), result(b, tape); return x != y and "skipped" not in (x, y)

def shrink(a, b, tape):
    bad = lambda t: differ(a, b, t)
    best = list(tape); end = time.time() + 60; span = max(1, len(best) // 2)
    while span >= 1 and time.time() < end:
        i = 0; moved = False
        while i + span <= len(best) and time.time() < end:
            c = best[:i] + best[i + span:]
            if bad(c): best = c; moved = True
            else: i += span
        if not moved or span > 1: span //= 2
    for i in range(len(best)):
        if time.time() > end: break
        for v in (0, 1, best[i] // 2):
            if v < best[i]:
                c = best[:i] + [v] + best[i + 1:]
                if bad(c): best = c; break
    while best and best[-1] == 0 and bad(best[:-1]): best.pop()
    return best

def show(exe, tape):
    try: return subprocess.run([exe, "show"], input=" ".join(map(str, tape)) + "\n", capture_output=True, text=True, errors="backslashreplace", timeout=15).stdout
    except subprocess.TimeoutExpired: return "(no result within 15 s)\n"

def run(D, pid, spec, tier, digest):
    exes = build(D, digest); names = list(exes); ref = exes[names[0]]
    total = int((spec["programs"] * (25 if tier == "thorough" else 1)) * float(os.environ.get("CASE_SCALE", "1"))); per = 500; t0 = time.time()
    limit = 560 if tier == "thorough" else 300; done = 0; nontrivial = set(); mism = None; compared = 0
    stop = False
    def job(frm):
        if stop or time.time() - t0 > limit: return frm, None
        out = {}
        for n in names:
            out[n] = chunk(exes[n], D.SEED, frm, min(per, total - frm))
            if out[n][1] == "timeout": break          # a program that does not return: the rest of this chunk is not worth the time
        return frm, out
    with cf.ThreadPoolExecutor(D.JOBS) as ex:
        for frm, out in ex.map(job, range(0, total, per)):
            if out is None: continue
            if mism: stop = True; continue
            base, rc = out[names[0]]; n = min(per, total - frm); done += n
            for l in base:
                w = l.split()
                if len(w) == 2 and int(w[1]) >= 3: nontrivial.add(w[0])
            for nm in names[1:]:
                if nm not in out: break
                o, rc2 = out[nm]; compared += len(o)
                o = [base[i] if l == "skipped" and i < len(base) else l for i, l in enumerate(o)]   # programs whose arguments AESI_UNSAFE rules out
                if o != base or rc2 != rc or rc != 0 or len(base) != n:
                    k = next((i for i in range(n) if i >= len(o) or i >= len(base) or o[i] != base[i]), None)
                    if k is not None: mism = (nm, frm + k); break
    samples = []
    for i in (0, done // 2):
        t = subprocess.run([ref, "tape", str(D.SEED), str(i), "1"], capture_output=True, text=True, errors="backslashreplace").stdout.split(); samples.append(f"program {i}: " + show(ref, list(map(int, t)))[:1200])
    cov = {"evaluations": done, "distinct_nontrivial": len(nontrivial), "rule": spec["rule"], "samples": samples, "configurations": names, "traces_compared_against_reference": compared}
    replay = None
    if mism:
        nm, idx = mism
        r = subprocess.run([ref, "tape", str(D.SEED), str(idx), "1"], capture_output=True, text=True, errors="backslashreplace").stdout.split(); tape = list(map(int, r))
        src = exes[nm]
        if not tape: # the reference itself does not survive this program: take the draws from the other build
            tape = list(map(int, subprocess.run([src, "tape", str(D.SEED), str(idx), "1"], capture_output=True, text=True, errors="backslashreplace").stdout.split()))
        ok = all(differ(ref, src, tape) for _ in range(3))
        if ok:
            small = shrink(ref, src, tape)
            if not all(differ(ref, src, small) for _ in range(3)): small = tape
            replay = os.path.join(D.REPLAYS, f"{pid}-{hashlib.sha256(str((nm, small)).encode()).hexdigest()[:16]}.replay")
            a, b = show(ref, small), show(src, small)
            open(replay, "w").write(f"property {pid}\nconfiguration {nm}\nmessage the trace differs between '{names[0]}' and '{nm}'\nchoices {' '.join(map(str, small))}\n--- {names[0]}\n{a}--- {nm}\n{b}")
        else: cov["unreproduced"] = 1
    D.write_evidence(pid, tier, "exploration", cov, spec.get("assumptions", []), 1 if replay else 0)
    if replay: print(open(replay).read()[:3000]); D.violation(pid, replay)
    print(f"{pid} held: {done} programs x {len(names)} configurations, {len(nontrivial)} distinct non-trivial, {time.time() - D.T0:.1f} s"); return 0

def replay(D, pid, spec, path, digest):
    lines = open(path).read().splitlines(); nm = next(l[14:] for l in lines if l.startswith("configuration ")); tape = list(map(int, next(l for l in lines if l.startswith("choices")).split()[1:]))
    exes = build(D, digest); ref = exes[list(exes)[0]]; a, b = result(ref, tape), result(exes[nm], tape); print(("FAILS" if a != b and "skipped" not in (a, b) else "HOLDS"), nm, a, b); print(show(ref, tape), "---\n", show(exes[nm], tape)); return 1 if a != b and "skipped" not in (a, b) else 0
