#!/usr/bin/env python3
"""Decides one property of properties.jsonl on /repo's current tree.

usage: check.py ID [quick|thorough]     exit 0: held; 1: VIOLATION; 2: the check itself failed
       check.py --setup                 builds the engine and the harness

Steps: build the symbolic executor (engine/), compile the harness crate together with /repo's current
sources to one LLVM module, execute the stages of the property (stages.py) symbolically, replay each
counterexample and a sample of the proved paths on the native build of the same harness, and write
evidence/<ID>.json.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("RUSTFLAGS", None)
JOBS = os.cpu_count() or 8


class CheckError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            files = [r]
        else:
            files = []
            for d, ds, fs in os.walk(r):
                ds[:] = [x for x in ds if x not in ("target", ".git")]
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
            h.update(b"\0")
    return h.hexdigest()


def build_engine():
    eng = os.path.join(V, "engine")
    stamp = os.path.join(T, "engine.hash")
    h = tree_hash(os.path.join(eng, "src"), os.path.join(eng, "Cargo.toml"))
    exe = os.path.join(T, "engine", "release", "symex")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    shutil.rmtree(os.path.join(T, "engine"), ignore_errors=True)
    run(["cargo", "build", "--release", "--offline"], cwd=eng, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(T, "engine")))
    with open(stamp, "w") as f:
        f.write(h)
    return exe


def build_harness(crate):
    """crate: directory name under /verif. Returns (module.ll, native binary)"""
    src = os.path.join(V, crate)
    td = os.path.join(T, crate)
    os.makedirs(T, exist_ok=True)
    ll = os.path.join(T, crate + ".ll")
    dbg = os.path.join(td, TRIPLE, "debug")
    exe = os.path.join(dbg, "h")
    stamp = os.path.join(T, crate + ".hash")
    h = tree_hash("/repo/src", "/repo/Cargo.toml", src, os.path.join(V, "harness"))
    if os.environ.get("VERIF_FAST") and os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(ll):
        return ll, exe
    # always regenerate from the current sources, whatever the file dates say
    for pat in (".fingerprint/termimad-*", ".fingerprint/h-*", "deps/h-*", "deps/libtermimad-*", "deps/termimad-*", "h", "h.d", "incremental"):
        for p in glob.glob(os.path.join(dbg, pat)):
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    obj = os.path.join(T, crate + "_symrt.o")
    run(["gcc", "-O1", "-c", os.path.join(V, "harness", "symrt.c"), "-o", obj])
    env = dict(ENV, CARGO_TARGET_DIR=td, RUSTFLAGS="--cfg=rustix_use_libc -C save-temps -C link-arg=%s" % obj)
    run(["cargo", "build", "--offline", "--target", TRIPLE], cwd=src, env=env)
    bcs = glob.glob(os.path.join(dbg, "deps", "h-*.lto.input.bc"))
    if len(bcs) != 1:
        raise CheckError("expected one LTO module, found %s" % bcs)
    main = open(os.path.join(src, "src", "main.rs")).read()
    entries = re.findall(r"^    [a-z0-9_]+::([a-z0-9_]+),", main, re.M)
    sysroot = run(["rustc", "--print", "sysroot"], env=ENV).strip()
    opt = os.path.join(sysroot, "lib", "rustlib", TRIPLE, "bin", "opt")
    run([opt, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), "-strip-debug", bcs[0], "-S", "-o", ll])
    with open(stamp, "w") as f:
        f.write(h)
    return ll, exe


def native(exe, entry, params, inputs, path, timeout=20):
    with open(path, "w") as f:
        f.write(" ".join(map(str, params)) + "\n" + " ".join(map(str, inputs)) + "\n# " + entry + "\n")
    try:
        p = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=timeout, cwd=T)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace")


def confirmed(kind, what, rc, out):
    if kind == "assert":
        return rc == 1 and ("ASSERT-FAILED " + what) in out
    if kind in ("panic", "abort", "trap", "unreachable", "memory", "stack"):
        return rc in (101, 134, -6, -11, -4, -5, -7)
    if kind in ("steps", "blocked"):
        return rc == "timeout"
    return False


def load_known(pid):
    """lines: known: property=ID key=<regex on 'entry/params kind what site'> inputs=<regex> | text"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) what=\"([^\"]*)\" inputs=(\S+) \| (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


def check(pid, tier):
    import stages
    spec = stages.PROPS[pid]
    t0 = time.time()
    symex = build_engine()
    crates = {}
    build_s = time.time() - t0
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "_*")):
        os.remove(f)
    todo = list(spec["quick"]) if tier == "quick" else list(spec["quick"]) + list(spec.get("thorough", []))
    known = load_known(pid)
    violations, problems, findings, stage_ev, samples_ev = [], [], {}, [], []
    tot = dict(paths=0, dead=0, forks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, solver_us=0, asserts=0,
               asserts_solver=0, validated=0, unsupported=0, incomplete=0)
    functions = set()
    budget_end = t0 + (780 if tier == "quick" else 6 * 3600)
    for st in todo:
        crate = st.get("crate", "harness")
        if crate not in crates:
            b0 = time.time()
            crates[crate] = build_harness(crate)
            build_s += time.time() - b0
        ll, exe = crates[crate]
        entry, params = st["entry"], st["params"]
        cap = min(st["time"], max(5, int(budget_end - time.time())))
        if os.environ.get("VERIF_SLOW"):
            cap *= 4
        name = entry + "_" + "_".join(map(str, params))
        outp = os.path.join(T, "out_%s_%s.json" % (pid, name))
        if os.path.exists(outp):
            os.remove(outp)
        cmd = [symex, ll, "--entry", entry, "--params", ",".join(map(str, params)), "--jobs", str(JOBS), "--out", outp,
               "--time", str(cap), "--frontier", "600", "--samples", str(st.get("samples", 16)),
               "--steps", str(st.get("steps", 20_000_000)), "--max-errs", "40"]
        dump = None
        if tier == "thorough" and st.get("cross", True):
            dump = os.path.join(T, "dump_" + pid)
            shutil.rmtree(dump, ignore_errors=True)
            os.makedirs(dump)
            cmd += ["--dump", dump]
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=T, start_new_session=True)
            log, _ = p.communicate(timeout=cap + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            problems.append("%s: no answer in %d s" % (name, cap + 60))
            continue
        if not os.path.exists(outp):
            problems.append("%s: executor failed: %s" % (name, log[-2000:]))
            continue
        o = json.load(open(outp))
        functions |= set(o["functions"])
        tot["paths"] += o["paths"]
        tot["dead"] += o["dead"]
        tot["forks"] += o["forks"]
        tot["steps"] += o["steps"]
        tot["queries"] += o["queries"]
        tot["sat"] += o["sat"]
        tot["unsat"] += o["unsat"]
        tot["unknown"] += o["unknown"]
        tot["solver_us"] += o["solver_us"]
        tot["asserts"] += o["asserts"]
        tot["asserts_solver"] += o["asserts_solver"]
        uns = [e for e in o["errors"] if e["kind"] == "unsupported"]
        nuns = sum(e["count"] for e in uns)
        tot["unsupported"] += nuns
        if not o["complete"]:
            tot["incomplete"] += 1
        ev = dict(entry=entry, params=params, bounds=st.get("bounds", ""), complete=bool(o["complete"]) and nuns == 0, paths=o["paths"],
                  instructions=o["steps"], asserts=o["asserts"], asserts_decided_by_solver=o["asserts_solver"],
                  queries=o["queries"], queries_to_z3=o["queries_z3"], solver_s=round(o["solver_us"] / 1e6, 2),
                  unsupported_paths=nuns, timed_out=bool(o["timed_out"]),
                  reached={k: v["count"] if isinstance(v, dict) else v for k, v in o["reach"].items()})
        if uns:
            ev["unsupported"] = sorted({e["what"] for e in uns})[:5]
        nviol = 0
        for i, e in enumerate(o["errors"]):
            if e["kind"] == "unsupported":
                continue
            rp = os.path.join(rdir, "%s_%s_%d.txt" % (pid, name, i))
            rc, txt = native(exe, entry, params, e["inputs"], rp, timeout=20)
            key = "%s/%s" % (entry, ",".join(map(str, params)))
            desc = "%s %s: %s at %s (%d paths), inputs %s" % (key, e["kind"], e["what"], e["site"], e["count"], e["inputs"])
            if not confirmed(e["kind"], e["what"], rc, txt):
                problems.append("counterexample not reproduced natively: %s; native rc=%s %s" % (desc, rc, txt[-300:]))
                continue
            hit = None
            for (kentry, kwhat, kinputs, ktext) in known:
                if re.fullmatch(kentry, entry) and kwhat in e["what"] and re.fullmatch(kinputs, ",".join(map(str, e["inputs"]))):
                    hit = ktext
            if hit:
                findings[hit] = findings.get(hit, 0) + e["count"]
                os.remove(rp)
                continue
            nviol += 1
            violations.append((desc, rp))
        ev["violations"] = nviol
        nval = 0
        for i, s in enumerate(o["samples"]):
            sp = os.path.join(T, "sample_%s.txt" % pid)
            rc, txt = native(exe, entry, params, s["inputs"], sp)
            obs = [int(x) for x in re.findall(r"^OBS (\d+)$", txt, re.M)]
            if rc == 0 and obs == s["obs"]:
                nval += 1
            else:
                problems.append("path does not replay natively: %s inputs %s: rc=%s obs %s expected %s %s" %
                                (name, s["inputs"], rc, obs[:20], s["obs"][:20], txt[-200:]))
            if i < 2:
                samples_ev.append("%s(%s) inputs=%s observed=%s" % (entry, ",".join(map(str, params)), s["inputs"], s["obs"]))
        ev["paths_replayed_natively"] = nval
        tot["validated"] += nval
        if dump:
            ev["cross_checked"] = cross_check(dump, problems, name)
            shutil.rmtree(dump, ignore_errors=True)
        if o["paths"] == 0 and not o["errors"]:
            problems.append("%s: nothing explored" % name)
        for label in st.get("must_reach", []):
            if o["complete"] and label not in o["reach"] and not nviol:
                ev.setdefault("not_reached", []).append(label)
        stage_ev.append(ev)
        print("%s %-28s paths=%d asserts=%d queries=%d solver=%.1fs complete=%s replayed=%d errors=%d %s" %
              (pid, name, o["paths"], o["asserts"], o["queries"], o["solver_us"] / 1e6, ev["complete"], nval, nviol,
               ev.get("unsupported", "")), flush=True)
        if violations and not os.environ.get("VERIF_ALL"):
            break
    wall = time.time() - t0
    mine = sorted(f for f in functions if "termimad" in f or "minimad" in f)
    evidence = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=tot["paths"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=tot["validated"],
            samples=samples_ev[:12], paths=tot["paths"], forks=tot["forks"], asserts=tot["asserts"],
            asserts_decided_by_solver=tot["asserts_solver"], solver_queries=tot["queries"], solver_sat=tot["sat"],
            solver_unsat=tot["unsat"], solver_unknown=tot["unknown"], solver_s=round(tot["solver_us"] / 1e6, 2),
            stages=stage_ev, stages_not_exhausted=tot["incomplete"], unsupported_paths=tot["unsupported"],
            functions_encoded=len(functions), termimad_functions_encoded=[demangle(f) for f in mine],
            bounds=[s.get("bounds", "") for s in todo], outside=spec.get("outside", ""), known_findings=findings,
            build_s=round(build_s, 1)),
        assumptions=stages.ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(wall, 1), violations=len(violations))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k, n in findings.items():
        print("KNOWN-FINDING: property=%s %s (%d paths)" % (pid, k, n))
    if violations:
        for d, rp in violations[:10]:
            print(d)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        for p in problems[:5]:
            print("note:", p)
        return 1
    if problems:
        for p in problems[:10]:
            print("CHECK-ERROR", p)
        return 2
    print("%s held: %d paths, %d asserts, %d queries, %.1f s solver, %.1f s wall" %
          (pid, tot["paths"], tot["asserts"], tot["queries"], tot["solver_us"] / 1e6, wall))
    return 0


def demangle(s):
    m = re.match(r"_ZN(.*)E$", s)
    if m:
        rest, parts = m.group(1), []
        while rest:
            n = re.match(r"\d+", rest)
            if not n:
                break
            k = int(n.group())
            parts.append(rest[n.end():n.end() + k])
            rest = rest[n.end() + k:]
        if parts and re.match(r"h[0-9a-f]{16}$", parts[-1]):
            parts.pop()
        return "::".join(parts)
    return s


def cross_check(d, problems, name):
    """runs the dumped z3 queries through cvc5 and the newer z3"""
    res = dict(queries=0, cvc5_agree=0, z3new_agree=0, no_answer=0)
    end = time.time() + 300
    for f in sorted(glob.glob(os.path.join(d, "*.smt2")))[:200]:
        if time.time() > end:
            break
        head = open(f).read(4000)
        m = re.search(r"; *expected: *(sat|unsat)", head) or re.search(r":status (sat|unsat)", head)
        if not m:
            continue
        res["queries"] += 1
        for solver, key in (("cvc5", "cvc5_agree"), ("z3-new", "z3new_agree")):
            try:
                p = subprocess.run([solver, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
                a = re.search(r"^(sat|unsat)$", p.stdout, re.M)
            except subprocess.TimeoutExpired:
                a = None
            if not a:
                res["no_answer"] += 1
            elif a.group(1) == m.group(1):
                res[key] += 1
            else:
                problems.append("%s: %s disagrees with z3 on %s" % (name, solver, f))
    return res


def main():
    os.makedirs(T, exist_ok=True)
    lock = open(os.path.join(T, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sys.path.insert(0, V)
    try:
        if sys.argv[1] == "--setup":
            build_engine()
            build_harness("harness")
            print("ready")
            return 0
        tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
        return check(sys.argv[1], tier)
    except CheckError as e:
        print("CHECK-ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
