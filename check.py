#!/usr/bin/env python3
"""Driver of the checks.

  check.py setup                 build the executor, the IR and the replayer
  check.py PROPERTY quick|thorough
  check.py replay FILE           re-run a recorded counterexample natively
  check.py baseline              rewrite expected.json (paths and coverage per harness)
"""
import collections, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
W = os.path.join(V, "work")
REPO = "/repo"
TC = "stable"
TARGET = os.path.join(W, "target")          # IR
RTARGET = os.path.join(W, "replay-target")  # native replayer
ETARGET = os.path.join(W, "engine-target")
T0 = time.time()
sys.path.insert(0, V)
import plan

os.environ["RUSTUP_TOOLCHAIN"] = TC
os.environ.pop("RUSTFLAGS", None)
os.environ.pop("CARGO_BUILD_TARGET", None)


def log(*a):
    print(*a, flush=True)


def files(d, pats):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "work"))
        for f in sorted(fs):
            if any(f.endswith(p) for p in pats):
                out.append(os.path.join(r, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_files():
    return files(os.path.join(REPO, "src"), [""]) + [p for p in (f"{REPO}/Cargo.toml", f"{REPO}/build.rs", f"{REPO}/README.md") if os.path.exists(p)]


def harness_files():
    return files(os.path.join(V, "harness", "src"), [".rs"]) + [f"{V}/harness/{x}" for x in ("Cargo.toml", "Cargo.lock", "build.rs")]


def stamp(name, key=None):
    p = os.path.join(W, name + ".key")
    if key is None:
        try:
            return open(p).read()
        except OSError:
            return None
    if key == "":
        if os.path.exists(p):
            os.unlink(p)
    else:
        with open(p, "w") as f:
            f.write(key)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)[:300]}\n{r.stdout[-6000:]}")
    return r.stdout


def build_engine():
    key = digest(files(f"{V}/engine/src", [".rs"]) + [f"{V}/engine/Cargo.toml"])
    exe = f"{ETARGET}/release/irsym"
    if stamp("engine") == key and os.path.exists(exe):
        return exe
    stamp("engine", "")
    env = {"CARGO_TARGET_DIR": ETARGET}
    if os.path.exists(exe):
        sh(["cargo", "clean", "--offline", "-p", "irsym"], f"{V}/engine", env)
    sh(["cargo", "build", "--release", "--offline"], f"{V}/engine", env)
    stamp("engine", key)
    return exe


def clean(target):
    # sources are compared by content (the key), not by date: drop what cargo could wrongly keep
    if os.path.isdir(target):
        for prof in (["--release"], [], ["--profile", "opt"]):
            try:
                sh(["cargo", "clean", "--offline", "-p", "subtile", "-p", "vharness"] + prof, f"{V}/harness", {"CARGO_TARGET_DIR": target})
            except BuildError as e:
                log("note: cargo clean:", str(e)[-300:])


def code_key():
    return digest(repo_files() + harness_files())


def build_ir(key):
    ll = f"{W}/h.ll"
    if stamp("ir") == key and os.path.exists(ll):
        return ll
    stamp("ir", "")
    clean(TARGET)
    for p in glob.glob(f"{TARGET}/release/deps/vharness-*"):
        os.unlink(p)
    sh(["cargo", "rustc", "--release", "--offline", "--lib", "--", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
       f"{V}/harness", {"CARGO_TARGET_DIR": TARGET})
    bcs = glob.glob(f"{TARGET}/release/deps/vharness-*cgu.0.rcgu.bc")
    if len(bcs) != 1:
        raise BuildError(f"bitcode files: {bcs}")
    b = os.path.join(sh(["rustc", "--print", "sysroot"]).strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    names = []
    for f in files(f"{V}/harness/src", [".rs"]):
        names += re.findall(r"^pub fn (h_[a-z0-9_]+)", open(f).read(), re.M)
    sh([f"{b}/opt", "-passes=internalize,globaldce,function(lower-invoke,simplifycfg),globaldce,strip-dead-debug-info", "--strip-debug",
        "-internalize-public-api-list=" + ",".join(names), bcs[0], "-o", f"{W}/h.bc"])
    sh([f"{b}/llvm-dis", f"{W}/h.bc", "-o", ll])
    for p in glob.glob(f"{TARGET}/release/deps/vharness-*"):
        if p.endswith(".bc") or p.endswith(".o"):
            os.unlink(p)
    stamp("ir", key)
    return ll


def build_replay(key, prof):
    exe = f"{RTARGET}/{'debug' if prof == 'dev' else 'opt'}/replay"
    if stamp("replay-" + prof) == key and os.path.exists(exe):
        return exe
    if stamp("replay-clean") != key:
        clean(RTARGET)
        stamp("replay-clean", key)
    stamp("replay-" + prof, "")
    sh(["cargo", "build", "--offline", "--bin", "replay"] + ([] if prof == "dev" else ["--profile", "opt"]), f"{V}/harness", {"CARGO_TARGET_DIR": RTARGET})
    stamp("replay-" + prof, key)
    return exe


class Locked:
    def __init__(self, name="lock"):
        os.makedirs(W, exist_ok=True)
        self.p = f"{W}/{name}"

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def locked_replay(key, prof):
    with Locked("lock-replay"):
        return build_replay(key, prof)


class Bg(threading.Thread):
    def __init__(self, fn, *a):
        super().__init__(daemon=True)
        self.fn, self.a, self.r, self.e = fn, a, None, None
        self.start()

    def run(self):
        try:
            self.r = self.fn(*self.a)
        except BaseException as e:  # noqa: BLE001
            self.e = e

    def get(self):
        self.join()
        if self.e:
            raise self.e
        return self.r


# ------------------------------------------------------------------ one harness

def run_harness(exe, ll, name, opts, hard):
    out = f"{W}/o/{os.getpid()}-{name}"
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(f"{out}/{f}")
    cmd = [exe, ll, name, out] + [f"{k}={v}" for k, v in opts.items()]
    killed = False
    p = subprocess.Popen(cmd, start_new_session=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    try:
        _, err = p.communicate(timeout=hard)
    except subprocess.TimeoutExpired:
        killed = True
        os.killpg(p.pid, 9)
        _, err = p.communicate()
    r = dict(name=name, sums=collections.Counter(), maxs={}, paths=collections.Counter(), limits=collections.Counter(), covers=set(),
             asserts=set(), fns={}, blks=collections.defaultdict(set), viols=[], samples=[], procs=0, killed=killed, err=(err or "")[-800:], rc=p.returncode)
    for f in sorted(os.listdir(out)):
        ended = False
        for l in open(f"{out}/{f}", errors="replace"):
            l = l.rstrip("\n")
            a = l.split(" ")
            if a[0] == "path":
                r["paths"][a[1]] += int(a[2])
            elif a[0] == "sum":
                r["sums"][a[1]] += int(a[2])
            elif a[0] == "max":
                r["maxs"][a[1]] = max(r["maxs"].get(a[1], 0), int(a[2]))
            elif a[0] == "limit":
                r["limits"][" ".join(a[2:])] += int(a[1])
            elif a[0] == "cover":
                r["covers"].add(int(a[1]))
            elif a[0] == "assertid":
                r["asserts"].add(int(a[1]))
            elif a[0] == "fn":
                r["fns"][a[1]] = int(a[2])
            elif a[0] == "blk":
                r["blks"][a[1]].add(a[2])
            elif a[0] == "sample":
                r["samples"].append((a[1], a[2]))
            elif l.startswith("viol\t"):
                x = (l.split("\t") + [""] * 6)[:6]
                r["viols"].append(dict(kind=x[1], id=x[2], loc=x[3], model=x[4], stack=x[5]))
            elif l == "end":
                ended = True
        r["procs"] += 1
        if not ended:
            r["killed"] = True
        os.unlink(f"{out}/{f}")
    os.rmdir(out)
    r["complete"] = bool(not r["killed"] and r["rc"] == 0 and r["procs"] > 0 and not r["limits"] and r["sums"]["unexplored"] == 0
                         and r["sums"]["unknown"] == 0 and not r["viols"])
    return r


REPLAY_S = 20


def native(exe, name, model):
    d = f"{W}/scratch/{os.getpid()}-{threading.get_ident()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    try:
        r = subprocess.run([exe, name, model, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=REPLAY_S, preexec_fn=lim)
        out = r.stdout.decode(errors="replace")
        rc = r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "RESULT hang", "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = re.findall(r"^RESULT (.*)$", out, re.M)
    obs = re.findall(r"^OBS (.*)$", out, re.M)
    pan = re.findall(r"^PANIC (.*(?:\n.*)?)", out, re.M)
    res = res[-1] if res else f"killed ({rc}): {out[-200:]}"
    return dict(result=res, obs=obs[-1] if obs else "-", panic=pan[0] if pan else "", rc=rc)


def confirmed(v, n):
    """Does a native run show the violation?"""
    r = n["result"]
    if r == "ok" or r.startswith("assume"):
        return False
    # any failed assertion, panic, abort or hang of the real code on this input violates the property
    return True


# ------------------------------------------------------------------ a check

def known():
    try:
        return json.load(open(f"{V}/known_findings.json"))
    except OSError:
        return {"findings": [], "fixed": []}


def src_line(name, i):
    for f in files(f"{V}/harness/src", [".rs"]):
        s = open(f).read()
        if re.search(rf"^pub fn {name}\b", s, re.M):
            l = s.split("\n")
            if 0 < i <= len(l):
                return f"{os.path.basename(f)}:{i}: {l[i-1].strip()}"
    return str(i)


def subtile_fn(n):
    return "subtile" in n and "vharness" not in n.split("subtile")[0]


def demangle(n):
    m = re.match(r"_ZN(.*?)(17h[0-9a-f]{16}E.*)?$", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"(\d+)", s)
        if not k:
            break
        w = int(k.group(1))
        out.append(s[len(k.group(1)):len(k.group(1)) + w])
        s = s[len(k.group(1)) + w:]
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("..", "::"), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"), ("$C$", ","), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*")):
        r = r.replace(a, b)
    return r


def check(prop, tier):
    P = plan.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 780 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "7200"))
    hs = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    key = code_key()
    replay = Bg(locked_replay, key, "dev")
    with Locked():
        eng = Bg(build_engine)
        ll = build_ir(key)
        exe = eng.get()
    t_build = time.time() - T0
    log(f"{prop} {tier}: build {t_build:.1f} s, {len(hs)} harnesses")
    exp = {}
    try:
        exp = json.load(open(f"{V}/expected.json"))
    except OSError:
        pass
    K = [f for f in known()["findings"] if f["property"] == prop]
    results, confirmed_v, unconfirmed, kf, validated, mism = [], [], [], {}, 0, []
    assumptions = list(plan.ASSUMPTIONS) + list(P.get("assumptions", []))
    for h in hs:
        name, opt = (h, {}) if isinstance(h, str) else h
        left = budget - (time.time() - T0)
        if left < 15:
            results.append(dict(name=name, skipped=True))
            continue
        base = exp.get(name, {}).get("wall_s", 20)
        t = min(left - 10, max(60, 12 * base) if tier == "quick" else 3600)
        opts = dict(procs=8, seed=seed, time=int(t), max_viol=6, timeout_ms=20000 if tier == "quick" else 120000, samples=4)
        opts.update(opt)
        r = run_harness(exe, ll, name, opts, min(left - 5, t + 45))
        # the translation itself: paths of the executor against runs of the compiled code
        rexe = replay.get()
        n_ok = 0
        for m, o in r["samples"][:8]:
            n = native(rexe, name, m)
            if n["result"] == "ok" and n["obs"] == o:
                n_ok += 1
            else:
                mism.append(dict(harness=name, model=m, engine=o, native=n))
        validated += n_ok
        r["validated"] = n_ok
        # counterexamples
        seen = set()
        for v in r["viols"]:
            sig = (v["kind"], v["id"], v["loc"])
            if sig in seen:
                continue
            n = native(rexe, name, v["model"])
            prof = "dev"
            if not confirmed(v, n):
                with Locked("lock-opt"):
                    ro = build_replay(key, "opt")
                n2 = native(ro, name, v["model"])
                if confirmed(v, n2):
                    n, prof = n2, "release"
            rec = dict(property=prop, harness=name, profile=prof, engine=v, native=n)
            if not confirmed(v, n):
                unconfirmed.append(rec)
                continue
            seen.add(sig)
            f = next((f for f in K if f["harness"] == name and f["match"] in n["result"] + " " + n["panic"] + " " + v["stack"]), None)
            if f:
                kf[f["what"]] = kf.get(f["what"], 0) + 1
                continue
            confirmed_v.append(rec)
        st = "complete" if r["complete"] else "INCOMPLETE"
        log(f"  {name}: {sum(r['paths'].values())} paths, {r['sums']['queries']} queries, {r['maxs'].get('wall_ms', 0)/1000:.1f} s, {n_ok} traces validated, {st}"
            + (f" {dict(r['limits'])}" if r["limits"] else "") + (f" rc={r['rc']} {r['err'][-300:]}" if r["rc"] else ""))
        results.append(r)
        if confirmed_v:
            break
    # evidence
    done = [r for r in results if not r.get("skipped")]
    tot = lambda k: sum(r["sums"][k] for r in done)
    fns = {}
    blks = collections.defaultdict(set)
    for r in done:
        for f, n in r["fns"].items():
            fns[f] = n
        for f, b in r["blks"].items():
            blks[f] |= b
    enc = sorted(f"{demangle(f)} ({len(blks[f])}/{n} blocks)" for f, n in fns.items() if subtile_fn(f))
    other = sorted(demangle(f) for f in fns if not subtile_fn(f))
    samples = []
    for r in done:
        for m, o in r["samples"][:2]:
            samples.append(dict(harness=r["name"], input_hex=m, observed_hex=o))
    vac = []
    for r in done:
        e = exp.get(r["name"])
        if e and len(r["covers"]) < e.get("covers", 0) and r["complete"]:
            vac.append(f"{r['name']}: {len(r['covers'])} of {e['covers']} cover points reached")
        if r["paths"]["done"] == 0 and not r["viols"]:
            vac.append(f"{r['name']}: no path reached its end")
    cov = dict(
        states=sum(sum(r["paths"].values()) for r in done),
        transitions=tot("instrs"),
        traces_validated_against_impl=validated,
        samples=samples[:24],
        exhaustive=False,
        complete_within_bounds=bool(len(done) == len(hs) and all(r["complete"] for r in done) and not kf),
        explanation="states: feasible paths of the harnesses, each standing for all the inputs that follow it; transitions: LLVM instructions executed symbolically; "
                    "the solver decides each branch and each assertion for all values within the bounds",
        bounds=P["bounds"] if tier == "quick" else P.get("bounds_thorough", P["bounds"]),
        outside=P.get("outside", ""),
        solver=dict(name="Z3 (linked), bit-vectors, with a linear-integer translation for arithmetic", queries=tot("queries"), answered_from_cache=tot("cached"), sat=tot("sat"),
                    unsat=tot("unsat"), solver_s=round(tot("solver_us") / 1e6, 3), slowest_query_s=round(max([r["maxs"].get("solver_max_us", 0) for r in done] or [0]) / 1e6, 3),
                    unknown=tot("unknown")),
        assertions_decided=tot("asserts"),
        assertions_decided_by_simplification=tot("asserts_trivial"),
        functions_encoded=enc,
        library_functions_encoded=len(other),
        harnesses=[dict(name=r["name"], skipped=True) if r.get("skipped") else dict(
            name=r["name"], paths=dict(r["paths"]), complete=r["complete"], queries=r["sums"]["queries"], wall_s=r["maxs"].get("wall_ms", 0) / 1000,
            assertions=sorted(src_line(r["name"], i) for i in r["asserts"]), cover_points=len(r["covers"]), validated=r["validated"],
            limits=dict(r["limits"]), unexplored=r["sums"]["unexplored"], unknown=r["sums"]["unknown"]) for r in results],
        vacuity_warnings=vac,
        translation_mismatches=mism[:5],
        unconfirmed_counterexamples=unconfirmed[:5],
        build_s=round(t_build, 1),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get("level", "model_checking"), coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - T0, 2), violations=len(confirmed_v))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for w, n in kf.items():
        log(f"KNOWN-FINDING: property={prop} {w}")
    for x in vac:
        log("note:", x)
    for x in mism[:3]:
        log("note: translation mismatch", json.dumps(x)[:400])
    for x in unconfirmed[:3]:
        log("note: counterexample not reproduced natively", json.dumps(x)[:600])
    if confirmed_v:
        os.makedirs(f"{W}/replay", exist_ok=True)
        for i, rec in enumerate(confirmed_v[:5]):
            p = f"{W}/replay/{prop}-{rec['harness']}-{i}.json"
            m = re.match(r"assert (\d+)", rec["native"]["result"])
            rec["assertion"] = src_line(rec["harness"], int(m.group(1))) if m else None
            rec["rerun"] = f"python3 {V}/check.py replay {p}"
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            log(f"  {rec['native']['result']} {rec['native']['panic'][:300]} {rec['assertion'] or ''}")
            log(f"VIOLATION property={prop} replay={p}")
        return 1
    log(f"{prop}: no violation, {'complete' if cov['complete_within_bounds'] else 'NOT complete'} within the bounds, {time.time()-T0:.1f} s")
    return 0


def replay_file(p):
    rec = json.load(open(p))
    key = code_key()
    prof = "dev" if rec["profile"] == "dev" else "opt"
    exe = locked_replay(key, prof)
    n = native(exe, rec["harness"], rec["engine"]["model"])
    log(json.dumps(n, indent=1))
    return 1 if confirmed(rec["engine"], n) else 0


def setup():
    key = code_key()
    replay = Bg(locked_replay, key, "dev")
    with Locked():
        eng = Bg(build_engine)
        build_ir(key)
        eng.get()
    replay.get()
    log(f"setup: {time.time()-T0:.1f} s")
    return 0


def baseline(only=None):
    key = code_key()
    with Locked():
        exe = build_engine()
        ll = build_ir(key)
    try:
        exp = json.load(open(f"{V}/expected.json"))
    except OSError:
        exp = {}
    names = []
    for P in plan.PROPS.values():
        for h in list(P["quick"]) + list(P.get("thorough", [])):
            if h not in names:
                names.append(h)
    for h in names:
        name, opt = (h, {}) if isinstance(h, str) else h
        if only and not re.match(only, name):
            continue
        r = run_harness(exe, ll, name, dict(procs=8, time=900, **opt), 1000)
        exp[name] = dict(covers=len(r["covers"]), paths=sum(r["paths"].values()), asserts=len(r["asserts"]), wall_s=round(r["maxs"].get("wall_ms", 0) / 1000, 1), complete=r["complete"])
        log(name, exp[name], dict(r["limits"]), [v["kind"] + " " + v["id"] for v in r["viols"]])
        with open(f"{V}/expected.json", "w") as f:
            json.dump({k: exp[k] for k in sorted(exp)}, f, indent=1)
            f.write("\n")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            rc = setup()
        elif a[0] == "replay":
            rc = replay_file(a[1])
        elif a[0] == "baseline":
            rc = baseline(a[1] if len(a) > 1 else None)
        else:
            rc = check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except BuildError as e:
        log("build failed:", e)
        rc = 2
    sys.exit(rc)


main()
