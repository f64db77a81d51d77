"""Driver of the Python checks (C19-C23): builds the extension module from /repo, lays the package out in a
scratch site directory, runs the enumeration in parallel worker processes and merges what they report."""
import glob, json, os, shutil, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
NSHARDS = 8

def _python():
    for p in ("/opt/vp/venv/bin/python",):
        if os.path.exists(p):
            return p
    return "python3"

def build(BUILD, env, log):
    td = os.path.join(BUILD, "t-py")
    e = dict(env)
    e["PYO3_PYTHON"] = _python()
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    e["RUSTFLAGS"] = "-Zthreads=4"
    cmd = ["cargo", "rustc", "-q", "--lib", "--crate-type", "cdylib", "--locked", "--offline", "--features", "python,fma", "--target-dir", td]
    out = ""
    for flags in ("-Zthreads=4", ""):
        e["RUSTFLAGS"] = flags
        try:
            p = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=420)
        except subprocess.TimeoutExpired:
            return None, "building the extension module took too long"
        out = p.stdout
        if p.returncode == 0:
            break
    else:
        return None, out
    so = os.path.join(td, "debug", "libinterpn.so")
    site = os.path.join(BUILD, "site")
    shutil.rmtree(site, ignore_errors=True)
    pkg = os.path.join(site, "interpn")
    shutil.copytree(os.path.join(REPO, "src", "interpn"), pkg, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    shutil.copy(so, os.path.join(pkg, "interpn.abi3.so"))
    ver = "0"
    for l in open(os.path.join(REPO, "Cargo.toml")):
        if l.startswith("version"):
            ver = l.split('"')[1]
            break
    di = os.path.join(site, f"interpn-{ver}.dist-info")
    os.makedirs(di)
    with open(os.path.join(di, "METADATA"), "w") as f:
        f.write(f"Metadata-Version: 2.1\nName: interpn\nVersion: {ver}\n")
    return site, out

def run(prop, spec, tier, seed, onlys, BUILD, env, log):
    t0 = time.time()
    site, out = build(BUILD, env, log)
    if site is None:
        return {}, {"python": out[-4000:]}, ["python"]
    build_s = time.time() - t0
    wdir = os.path.join(BUILD, f"py-{prop}")
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "COV"))}
    e.update(PYTHONPATH=site, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             VERIF_TIER=tier, VERIF_SEED=str(seed), RUST_BACKTRACE="0")
    only = [o for o in onlys if o]
    ps = []
    t1 = time.time()
    for i in range(NSHARDS):
        res = os.path.join(wdir, f"r{i}.json")
        cmd = [_python(), "-W", "ignore", os.path.join(HERE, "worker.py"), prop, tier, str(i), str(NSHARDS), res] + only
        lf = open(os.path.join(wdir, f"l{i}.txt"), "w")
        ps.append((i, res, subprocess.Popen(cmd, cwd=wdir, env=e, stdout=lf, stderr=subprocess.STDOUT)))
    limit = 780 if tier == "quick" else 7200
    tot = {"states": 0, "transitions": 0, "traces": 0, "evaluations": 0, "outcomes": 0, "skipped": 0, "samples": [], "notes": {}, "violations": 0, "viol": [], "max_error_over_tolerance": 0.0, "max_error_case": ""}
    logs = {}
    for i, res, p in ps:
        try:
            rc = p.wait(timeout=max(1, limit - (time.time() - t1)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        txt = open(os.path.join(wdir, f"l{i}.txt")).read()[-3000:]
        cur = ""
        try:
            cur = open(res + ".case").read().strip()
        except OSError:
            pass
        if isinstance(rc, int) and -rc in (4, 6, 7, 8, 11) and cur:
            # killed by a signal in the middle of a case: the call took the whole process down
            tot["violations"] += 1
            tot["viol"].append([cur, f"the process was ended by signal {-rc} in this case: {txt[-500:]}"])
            continue
        if rc != 0 or not os.path.exists(res):
            logs["python"] = f"worker {i} ended with {rc} in case {cur}\n{txt}"
            continue
        r = json.load(open(res))
        for k in ("states", "transitions", "traces", "evaluations", "outcomes", "skipped", "violations"):
            tot[k] += r[k]
        tot["samples"] += r["samples"][:2]
        tot["viol"] += r["viol"]
        for k, v in r["notes"].items():
            tot["notes"][k] = tot["notes"].get(k, 0) + v
        if r["maxratio"][0] > tot["max_error_over_tolerance"]:
            tot["max_error_over_tolerance"], tot["max_error_case"] = r["maxratio"]
    tot["viol"].sort(key=lambda v: len(v[0]))
    tot["viol"] = tot["viol"][:40]
    tot["wall_s"] = round(time.time() - t1, 1)
    tot["build_s"] = round(build_s, 1)
    if onlys != [None]:
        for k, w in tot["viol"]:
            print(f"replayed {k}: {w}")
    return {"python": tot}, logs, ["python"]
