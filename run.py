#!/usr/bin/env python3
"""Decide one property:  python3 run.py ID [quick|thorough]     (or  --replay FILE, --setup)

1. translate /repo's current tree (plus the harnesses) to one LLVM module;
2. run every case of the property through the symbolic executor (engine/), which turns the property's
   assertions into SAT questions over all inputs of the case;
3. replay what fails against the real crate with its real dependencies, and push sample inputs of
   every case through both sides (translator validation);
4. write evidence/ID.json.
"""
import concurrent.futures as cf
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(V, "work")
ENGINE = os.path.join(V, "engine/target/release/symir")
sys.path.insert(0, V)
import cases as C  # noqa: E402

BOUND = 990  # check id of the reference's own unrolling bound
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUST_"))}
ENV.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def demangle(n):
    """a readable rendering of the path in a mangled (v0) name: its identifiers in order"""
    if not n.startswith("_R"):
        return n
    ids, i = [], 2
    while i < len(n):
        m = re.compile(r"(\d+)_?").match(n, i)
        if m and n[i] != "0" and n[i - 1] not in "_" or m and n[i - 1] == "_" and n[i] != "0":
            k = int(m.group(1))
            t = n[m.end():m.end() + k]
            if len(t) == k and k > 0 and re.match(r"[A-Za-z_]", t):
                ids.append(t)
                i = m.end() + k
                continue
        if n[i] == "s" or n[i] == "C":
            m = re.compile(r"C?s[0-9a-zA-Z]*_").match(n, i)
            if m:
                i = m.end()
                continue
        i += 1
    return "::".join(ids)


class Err(Exception):
    pass


def sh(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Err(f"{what} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def put(path, data):
    """write only when different, so that cargo's fingerprints follow the content"""
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def build_engine():
    sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), "engine build")


def sync_repo(dst):
    """copy of /repo's working tree with `std` shadowed by stubs/vstd (see there)"""
    keep = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in (".git", "target", "tests", "benches", ".github", ".idea")]
        for f in files:
            p = os.path.join(root, f)
            r = os.path.normpath(os.path.join(rel, f))
            if r == "Cargo.lock" or os.path.islink(p):
                continue
            data = open(p, "rb").read()
            if r == "Cargo.toml":
                t = data.decode()
                t = re.sub(r"(?ms)^\[\[(bench|test|example|bin)\]\].*?(?=^\[|\Z)", "", t)
                t = re.sub(r"(?ms)^\[dev-dependencies.*?\].*?(?=^\[|\Z)", "", t)
                vs = f'vstd = {{ path = "{V}/stubs/vstd" }}\n'
                if re.search(r"(?m)^\[dependencies\]\s*$", t):
                    t = re.sub(r"(?m)^\[dependencies\]\s*$", "[dependencies]\n" + vs, t, count=1)
                else:
                    t += "\n[dependencies]\n" + vs
                data = t.encode()
            elif r == "src/lib.rs":
                data += b"\n#[allow(unused_extern_crates)]\nextern crate vstd as std;\n"
            put(os.path.join(dst, r), data)
            keep.add(r)
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in keep and not f == "Cargo.lock":
                os.unlink(p)


SYM_TOML = """[package]
name = "hsym"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
path = "{v}/harness/src/lib.rs"
[features]
native = []
{features}deadstones = ["goban/deadstones", "oxymcts"]
[dependencies]
goban = {{ path = "../repo", features = ["history"] }}
sgf-parser = "2"
oxymcts = {{ version = "0.1", optional = true }}
[workspace]
[patch.crates-io]
indexmap = {{ path = "{v}/stubs/indexmap" }}
sgf-parser = {{ path = "{v}/stubs/sgf-parser" }}
{patch}[profile.release]
opt-level = 1
lto = "fat"
codegen-units = 1
panic = "abort"
overflow-checks = {ovf}
debug-assertions = {dbg}
"""


NAT_TOML = """[package]
name = "replay"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "replay"
path = "{v}/harness/native/src/main.rs"
[dependencies]
h = {{ path = "{v}/harness/nlib" }}
[workspace]
[patch.crates-io]
{patch}[profile.release]
opt-level = 1
overflow-checks = true
debug-assertions = false
"""


def build(mods, feat, dbg, outdir, swap=()):
    """mods: the harness modules to compile; feat: a feature of the crate; swap: dependencies replaced by
    their stub in the replay binary too -> (module.ll, replay binary); both copied to outdir so that
    later builds do not matter"""
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        shutil.copy(ENGINE, os.path.join(outdir, "symir"))
        wrap = dbg == "wrap"  # as users build it: no overflow checks
        dbg = dbg is True
        tag = ("w" if wrap else "d" if dbg else "") + ("f" if feat else "") + ("s" if swap else "")
        patch = "".join(f'{n} = {{ path = "{V}/stubs/{n}" }}\n' for n in swap)
        sync_repo(os.path.join(WORK, "repo"))
        hs = os.path.join(WORK, "hsym" + tag)
        with open(os.path.join(V, "harness/features.toml")) as f:
            feats = f.read()
        put(os.path.join(hs, "Cargo.toml"), SYM_TOML.format(v=V, dbg="true" if dbg else "false", ovf="false" if wrap else "true", features=feats, patch=patch).encode())
        fl = list(mods) + ([feat] if feat else [])
        fa = ["--features", ",".join(fl)]

        def native():
            tgt = os.path.join(WORK, "tnat" + tag)
            nat = os.path.join(V, "harness/native")
            if swap:
                nat = os.path.join(WORK, "native" + tag)
                put(os.path.join(nat, "Cargo.toml"), NAT_TOML.format(v=V, patch=patch).encode())
            extra = ["--config", "profile.release.debug-assertions=true"] if dbg else ["--config", "profile.release.overflow-checks=false"] if wrap else []
            nf = ["--features", ",".join("h/" + f for f in fl)]
            sh(["cargo", "build", "--release", "--offline", "--target-dir", tgt] + extra + nf,
               nat, "native build")
            shutil.copy(os.path.join(tgt, "release/replay"), os.path.join(outdir, "replay"))

        def symb():
            dep = os.path.join(hs, "target/release/deps")
            if os.path.isdir(dep):
                for f in os.listdir(dep):
                    if f.endswith(".ll"):
                        os.unlink(os.path.join(dep, f))
            sh(["cargo", "rustc", "--release", "--offline"] + fa + ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
               "-C", "no-vectorize-slp"], hs, "symbolic build")
            ll = [f for f in os.listdir(dep) if f.endswith(".ll")]
            if len(ll) != 1:
                # nothing was rebuilt: force it
                sh(["cargo", "clean", "--release", "--offline", "-p", "hsym"], hs, "clean")
                sh(["cargo", "rustc", "--release", "--offline"] + fa + ["--", "--emit=llvm-ir", "-C",
                   "no-vectorize-loops", "-C", "no-vectorize-slp"], hs, "symbolic build")
                ll = [f for f in os.listdir(dep) if f.endswith(".ll")]
            if len(ll) != 1:
                raise Err(f"expected one module, got {ll}")
            shutil.copy(os.path.join(dep, ll[0]), os.path.join(outdir, "m.ll"))

        with cf.ThreadPoolExecutor(2) as ex:
            fs = [ex.submit(native), ex.submit(symb)]
            for f in fs:
                f.result()
    return time.time() - t0


def replay(outdir, entry, cs, assigns, timeout=120):
    """run assignments natively -> list of (status, failed, obs, msg)"""
    fd, p = tempfile.mkstemp(dir=outdir, suffix=".in")
    with os.fdopen(fd, "w") as f:
        for a in assigns:
            f.write(" ".join(f"{k}={v}" for k, v in a.items()) + "\n")
    try:
        r = subprocess.run([os.path.join(outdir, "replay"), entry, ",".join(map(str, cs)), p], env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=outdir,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30,) * 2))
        out, hang = r.stdout, False
        err = r.stderr[-300:]
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        hang, err = True, ""
    res = []
    for line in out.splitlines():
        st, failed, obs, msg = line.split("\t")
        res.append((st, [int(x) for x in failed.split(",") if x],
                    [tuple(map(int, x.split(":"))) for x in obs.split(",") if x], msg))
    if len(res) < len(assigns):
        res.append(("hang" if hang else "crash", [], [], err))
    return res


class Runner:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.spec = C.PROPS[pid]
        self.dir = tempfile.mkdtemp(prefix=f"run_{pid}_", dir=(os.makedirs(WORK, exist_ok=True) or WORK))
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()
        self.cal, self.expect = 0, {}
        self.errors, self.viol, self.known, self.res = [], [], [], []
        self.undecided = []  # cases without an answer: not part of the claim of this run
        self.validated = 0
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "36000"))

    def known_match(self, entry, cs, what, inputs):
        for k in C.KNOWN.get(self.pid, []):
            if k["entry"] == entry and what in k["what"] and k.get("case", cs) == cs and k["match"](cs, inputs):
                return k
        return None

    def one(self, case):
        if self.stop.is_set():
            return
        entry, cs = case["entry"], case["case"]
        label = f"{entry} {','.join(map(str, cs))}"
        out = os.path.join(self.dir, f"o_{abs(hash((entry, tuple(cs))))}.json")
        if not self.cal and time.time() > self.deadline:
            self.undecided.append(f"{label}: not started in time")
            return
        t0 = time.time()
        limit = case.get("limit", 60 + 12 * case["cost"] if not self.cal else 0)
        if self.cal:
            limit = self.cal
        limit = max(5, min(limit, self.deadline - time.time() - 10))
        cmd = [os.path.join(self.dir, "symir"), "--ll", os.path.join(self.dir, "m.ll"), "--entry", entry, "--case",
               ",".join(map(str, cs)), "--out", out, "--solver", "z3-new", "--timeout", "60", "--limit",
               str(int(limit)), "--samples", str(case.get("samples", 12)), "--lemma-time",
               str(case.get("lemma_time", 1 if self.tier == "quick" or self.cal else 60))]
        if case.get("allow_panic"):
            cmd.append("--allow-panic")

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (case.get("mem", 14) << 30,) * 2)

        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=pre,
                             cwd=self.dir, env=ENV)
        with self.lock:
            self.procs.add(p)
        try:
            _, err = p.communicate(timeout=limit + 300 if self.tier != "quick" else max(20, min(limit + 300, self.t0 + 840 - time.time())))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            err = "timeout"
        with self.lock:
            self.procs.discard(p)
        if self.stop.is_set():
            return
        if not os.path.exists(out):
            self.undecided.append(f"{label}: engine gave no answer (rc {p.returncode}): {err[-600:]}")
            return
        o = json.load(open(out))
        os.unlink(out)
        o["label"] = label
        found = 0
        # what was still running when time was up is a violation if the real code does not end on it either
        for v in o["violations"] + o["cuts"]:
            what = v["what"]
            cut = what.startswith("still running")
            if cut and self.cal:
                continue
            if what == f"check {BOUND}":
                self.errors.append(f"{label}: the reference's bound was too small")
                continue
            r = replay(self.dir, entry, cs, [v["inputs"]], 30)[0]
            bad = r[0] in ("panic", "hang", "crash") or any(x != BOUND for x in r[1])
            if case.get("allow_panic") and r[0] == "panic":
                bad = any(x != BOUND for x in r[1])
            if cut and r[0] != "hang":
                continue
            if not bad:
                self.errors.append(f"{label}: {what} does not reproduce on the real code ({r}) {v['inputs']}")
                continue
            k = self.known_match(entry, cs, what, v["inputs"])
            if k:
                self.known.append(k["id"])
                continue
            found += 1
            with self.lock:
                n = len(self.viol)
                rp = os.path.join(WORK, "replay", f"{self.pid}_{n}.json")
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "entry": entry, "case": cs, "what": what, "inputs": v["inputs"],
                               "mods": self.spec.get("mods", [self.pid.lower()]), "feature": self.spec.get("feature", ""), "debug": self.spec.get("debug", False),
                               "swap": list(self.spec.get("swap", ())),
                               "native": {"status": r[0], "failed": r[1], "message": r[3]},
                               "rerun": f"python3 {V}/run.py --replay {rp}"}, f, indent=1)
                self.viol.append(rp)
            print(f"{label}: {what} -> {r[0]} failed={r[1]} {r[3]}", flush=True)
            self.stop_all()
            break
        if found:
            return
        if not o["finished"]:
            self.undecided.append(f"{label}: not finished within {limit:.0f}s")
        elif o["inconclusive"]:
            self.undecided.append(f"{label}: inconclusive: {o['inconclusive'][:3]}")
        if o["stats"]["lemmas_bad"]:
            self.errors.append(f"{label}: the external solver refutes {o['stats']['lemmas_bad']} lemma(s)")
        # "k3": check 3 is reached; "c1": cover 1 can be satisfied
        short = lambda w: ("k" if w.startswith("check") else "c") + w.split()[1]
        reached = sorted((short(c["what"]) for c in o["covers"] if c["sat"]), key=lambda w: (w[0], int(w[1:])))
        if o["finished"] and not o["violations"] and not o["inconclusive"] and not self.cal:
            for w in set(case["covers"].split()) - set(reached):
                self.errors.append(f"{label}: vacuous: {w}")
        # translator validation
        ss = o["samples"]
        if ss and o["finished"]:
            rr = replay(self.dir, entry, cs, [s["inputs"] for s in ss])
            for s, r in zip(ss, rr):
                want = "panic" if s["panic"] else None
                ok = True
                if r[0] in ("hang", "crash"):
                    ok = False
                elif want == "panic" and r[0] != "panic":
                    ok = False
                elif want is None and r[0] == "panic":
                    ok = False
                elif sorted(s["failed"]) != sorted(r[1]):
                    ok = False
                else:
                    eo = [x for x in s["obs"]]
                    if len(eo) != len(r[2]) or any(a[1] is not None and tuple(a) != tuple(b) for a, b in zip(eo, r[2])):
                        ok = False
                if ok:
                    self.validated += 1
                else:
                    self.errors.append(f"{label}: translator and real code disagree on {s} vs {r}"[:1500])
                    break
        with self.lock:
            if o["finished"] and not o["inconclusive"]:
                self.res.append(o)
            if self.cal and o["finished"] and not o["inconclusive"] and not o["violations"]:
                self.expect[label] = {"s": round(time.time() - t0, 2), "l": 1, "covers": " ".join(reached)}

    def stop_all(self):
        self.stop.set()
        with self.lock:
            for p in self.procs:
                try:
                    p.kill()
                except OSError:
                    pass

    def todo(self):
        only = os.environ.get("VERIF_ONLY", "")
        if not self.cal:
            return [c for c in C.cases(self.pid, self.tier) if only in C.label(c)]
        known = set(C.EXPECT.get(self.pid, {})) if os.environ.get("VERIF_NEW") else set()
        if os.environ.get("VERIF_SKIP"):
            known |= set(open(os.environ["VERIF_SKIP"]).read().split("\n"))
        out = {C.label(c): c for c in C.PROPS[self.pid]["all"]()}
        return [c for l, c in out.items() if only in l and l not in known]

    def save_expect(self):
        """calibration: remember what was decided, and how fast"""
        path = os.path.join(V, "expect.json")
        with open(os.path.join(WORK, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            old = json.load(open(path)) if os.path.exists(path) else {}
            mine = old.get(self.pid, {})
            mine.update(self.expect)
            all_ = {C.label(c) for c in C.PROPS[self.pid]["all"]()}
            old[self.pid] = {k: mine[k] for k in sorted(mine) if k in all_}
            lines = ",\n".join(f'"{p}": {{\n' + ",\n".join(f'  {json.dumps(k)}: {json.dumps(v)}' for k, v in
                              old[p].items()) + "\n}" for p in sorted(old))
            with open(path, "w") as f:
                f.write("{\n" + lines + "\n}\n")
        print(f"{self.pid}: {len(self.expect)} calibrated, {sum(v['s'] for v in self.expect.values()):.0f}s of work")

    def main(self):
        try:
            bt = build(self.spec.get("mods", [self.pid.lower()]), self.spec.get("feature", ""), self.spec.get("debug", False), self.dir, self.spec.get("swap", ()))
            todo = self.todo()
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for f in [ex.submit(self.one, c) for c in todo]:
                    f.result()
            if self.cal:
                self.save_expect()
                return 0
            self.evidence(todo, bt)
        except Err as e:
            self.errors.append(str(e))
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        if self.viol:
            print(f"VIOLATION property={self.pid} replay={self.viol[0]}", flush=True)
            return 1
        for k in C.KNOWN.get(self.pid, []):
            if k["id"] in self.known:
                print(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        for e in self.undecided[:20]:
            print("UNDECIDED", e[:700])
        if len(self.undecided) > len(self.res):
            self.errors.append(f"{len(self.undecided)} cases undecided, {len(self.res)} decided")
        if self.errors:
            for e in self.errors[:20]:
                print("ERROR", e)
            return 2
        print(f"{self.pid}: {len(self.res)} cases held, {len(self.undecided)} undecided, in {time.time() - self.t0:.0f}s")
        return 0

    def evidence(self, todo, bt):
        R = self.res
        tot = lambda k: sum(r["stats"][k] for r in R)
        fn = {}
        for r in R:
            for name, n in r["functions"]:
                fn[name] = fn.get(name, 0) + n
        own = {k: v for k, v in fn.items() if "goban" in k}
        samples = []
        for r in R[:6]:
            for c in r["covers"][:2]:
                if c["sat"]:
                    samples.append({"case": r["label"], "witness": c["what"], "inputs": c["inputs"]})
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0")),
            "level": "model_checking",
            "coverage": {
                "states": tot("aig_nodes"),
                "transitions": tot("steps"),
                "traces_validated_against_impl": self.validated,
                "samples": samples,
                "explanation": "symbolic execution of the LLVM IR of the real functions; states = distinct boolean "
                               "functions in the encodings, transitions = IR instructions executed symbolically; every "
                               "case covers all assignments of its symbolic inputs",
                "cases": [{"case": r["label"], "input_bits": r["stats"]["inputs"], "exec_s": r["stats"]["exec_s"],
                           "aig_nodes": r["stats"]["aig_nodes"], "bdd_peak": r["stats"]["bdd_peak"],
                           "queries": [f"{x['what']}: {x['status']} ({x['terms']} open terms)" for x in r["obligations"]],
                           "reachable": [c["what"] for c in r["covers"] if c["sat"]]} for r in R],
                "cases_planned": len(todo),
                "cases_decided": len(R),
                "cases_undecided_in_this_run": self.undecided,
                "queries_discharged": sum(len(r["obligations"]) for r in R),
                "sweep_lemmas": tot("lemmas"),
                "sweep_lemmas_reproved_by_z3": tot("lemmas_rechecked"),
                "sweep_lemmas_that_close_a_check": tot("check_lemmas"),
                "smt_queries": tot("smt_queries"),
                "smt_s": round(tot("smt_s"), 2),
                "sat_core_queries": tot("core_calls"),
                "bdd_operations": tot("bdd_ops"),
                "symbolic_execution_s": round(tot("exec_s"), 2),
                "build_s": round(bt, 1),
                "functions_encoded": sorted({demangle(k) for k in own}),
                "functions_encoded_total": len(fn),
                "bounds": self.spec["bounds"],
            },
            "assumptions": self.spec.get("assumptions", []) + C.ASSUME,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)


def do_replay(path):
    j = json.load(open(path))
    d = tempfile.mkdtemp(dir=WORK)
    try:
        build(j["mods"], j.get("feature", ""), j.get("debug", False), d, j.get("swap", ()))
        r = replay(d, j["entry"], j["case"], [j["inputs"]])[0]
        print(json.dumps({"status": r[0], "failed": r[1], "message": r[3]}))
        return 1 if r[0] in ("panic", "hang", "crash") or r[1] else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--setup"]:
        build_engine()
        sys.exit(0)
    if a[0] == "--replay":
        sys.exit(do_replay(a[1]))
    if len(a) > 1 and a[1] == "--calibrate":
        r = Runner(a[0], "thorough")
        r.cal, r.deadline = int(a[2]), time.time() + 1e6
        r.main()
        for e in r.errors + r.undecided:
            print("ERROR", e[:300])
        for v in r.viol:
            print("VIOLATION", v)
        sys.exit(0)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(Runner(a[0], tier).main())
    except Err as e:
        print("ERROR", e)
        sys.exit(2)
