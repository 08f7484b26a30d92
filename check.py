#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property by symbolic execution of /repo's current code.

Builds the executor (qsym), compiles the crate plus harness to LLVM IR, runs the harness entries of the
property symbolically (Z3 decides every branch and assertion), replays counterexamples and sampled
passing paths against a native build of the same sources, writes evidence/<property>.json.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from plan import PLAN, ASSUME  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)
VARIANTS = {
    # name: (manifest directory, cargo features)
    "base": ("harness", []),
    "stats": ("harness", ["stats"]),
    "thr": ("harness_thr", []),
    # the same with unwinding (the other builds abort on a panic)
    "unw": ("harness", []),
    "thru": ("harness_thr", []),
}
UNWIND = ("unw", "thru")

class BuildError(Exception):
    pass

def sh(cmd, cwd=ROOT, env=ENV, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")

def popen(cmd, cwd, env):
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), cmd

def wait(p):
    pr, cmd = p
    out, _ = pr.communicate(timeout=600)
    if pr.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), out.decode(errors="replace")[-4000:]))

def forget(tdir):
    """make cargo recompile the crate under test and the harness whatever their timestamps say"""
    for pat in ("release/.fingerprint/quick_cache-*", "release/.fingerprint/qh*-*", "release/deps/*quick_cache*", "release/deps/*qh*"):
        for f in glob.glob(os.path.join(tdir, pat)):
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.remove(f)

def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    procs = [popen(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/qsym"], ROOT + "/qsym", ENV)]
    for v in variants:
        d, feats = VARIANTS[v]
        irt, nat = "%s/ir-%s" % (BUILD, v), "%s/nat-%s" % (BUILD, v)
        forget(irt)
        forget(nat)
        cmd = ["cargo", "build", "--release", "--offline", "--locked"]
        f = ["--features", ",".join(feats)] if feats else []
        fn = ["--features", ",".join(feats + ["native"])]
        base = dict(ENV, CARGO_PROFILE_RELEASE_PANIC="unwind") if v in UNWIND else ENV
        e = dict(base, RUSTFLAGS="--emit=llvm-bc,link -Cno-vectorize-loops -Cno-vectorize-slp")
        procs.append(popen(cmd + f + ["--lib", "--target-dir", irt], "%s/%s" % (ROOT, d), e))
        procs.append(popen(cmd + fn + ["--bin", "replay", "--target-dir", nat], "%s/%s" % (ROOT, d), base))
    wait(procs[0])
    failed = {}
    for i, v in enumerate(variants):
        for p in procs[1 + 2 * i: 3 + 2 * i]:
            try:
                wait(p)
            except BuildError as e:
                failed[v] = str(e)
    if len(failed) == len(variants):
        raise BuildError("\n".join(failed.values()))
    variants = [v for v in variants if v not in failed]
    host = re.search(r"host: (\S+)", sh(["rustc", "-vV"])).group(1)
    tools = os.path.join(sh(["rustc", "--print", "sysroot"]).strip(), "lib/rustlib", host, "bin")
    for v in variants:
        t = "%s/ir-%s" % (BUILD, v)
        ents = re.findall(r'extern "C" fn (h_\w+)', open(ROOT + "/harness/src/lib.rs").read())
        sh([tools + "/llvm-link"] + sorted(glob.glob(t + "/release/deps/*.bc")) + ["-o", t + "/all.bc"])
        sh([tools + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(ents + ["qs_park_hook"]),
            t + "/all.bc", "-o", t + "/a.bc"])
        sh([tools + "/llvm-dis", t + "/a.bc", "-o", t + "/a.ll"])
    return lock, failed

def replay(variant, entry, prop, params, lists, extra=(), pre=()):
    f = "%s/replay-%d.txt" % (BUILD, os.getpid())
    with open(f, "w") as h:
        for l in lists:
            h.write(",".join(map(str, l)) + "\n")
    try:
        r = subprocess.run(list(pre) + ["%s/nat-%s/release/replay" % (BUILD, variant), entry, str(prop), ",".join(map(str, params)), f] + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=25 * max(1, len(lists)))
        out = r.stdout.decode(errors="replace").splitlines()
        return out, r.returncode
    except subprocess.TimeoutExpired:
        return ["timeout"] * len(lists), 124
    finally:
        os.remove(f)

def confirm(run, num, v):
    """does the counterexample fail on the native build?  Returns a description or None"""
    num = run.get("prop", num)
    out, _ = replay(run["variant"], run["entry"], num, run["params"], [v["inputs"]])
    got = out[0] if out else "no output"
    kind = v["kind"]
    if got.startswith(("assert", "panic", "signal", "deadlock", "timeout")):
        return got
    if kind in ("memory", "unreachable", "stack"):
        # undefined behaviour need not crash: ask valgrind
        if shutil.which("valgrind"):
            out, rc = replay(run["variant"], run["entry"], num, run["params"], [v["inputs"]], ["single"],
                             ["valgrind", "-q", "--error-exitcode=77", "--leak-check=no"])
            if rc == 77:
                return "valgrind reports a memory error"
    return None

def demangle(n):
    s = re.findall(r"(?<![0-9])(\d+)", n)
    # crude but readable: legacy-free v0 names carry identifiers with length prefixes
    out, i = [], 0
    while i < len(n):
        m = re.match(r"(\d+)_?", n[i:])
        if m and 0 < int(m.group(1)) <= len(n) - i - len(m.group(0)) and int(m.group(1)) < 60:
            k = int(m.group(1))
            w = n[i + len(m.group(0)): i + len(m.group(0)) + k]
            if re.fullmatch(r"[A-Za-z_]\w*", w):
                out.append(w)
                i += len(m.group(0)) + k
                continue
        i += 1
    return "::".join(out[:6]) if out else n

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    num = int(pid[1:])
    runs = [r for r in plan["runs"] if tier == "thorough" or not r.get("thorough")]
    jobs = os.cpu_count() or 1
    variants = sorted({r["variant"] for r in runs})
    evid = os.path.join(ROOT, "evidence")
    os.makedirs(evid, exist_ok=True)
    try:
        lock, failed = build(variants)
    except BuildError as e:
        print(str(e))
        print("check %s: cannot build" % pid)
        sys.exit(3)
    tb = time.time() - t0
    total = dict(paths=0, forks=0, instructions=0, asserts=0, assert_queries=0, asserts_constant_on_path=0, solver_queries=0,
                 solver_sat=0, solver_unsat=0, solver_unknown=0, lia_queries=0, decided_syntactic=0, decided_cached_model=0,
                 context_switch_forks=0, panics_expected=0, killed=0, error_paths=0, unexplored=0)
    solver_s = 0.0
    funcs, per_run, samples, errors, unconfirmed = set(), [], [], [], []
    validated = mismatches = 0
    violation = None
    budget_total = plan.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    for v, msg in failed.items():
        errors.append("the code does not build in the %s configuration, which is left out: %s" % (v, msg[-300:]))
    for r in runs:
        if r["variant"] in failed:
            per_run.append(dict(run=r["name"], skipped="no build of configuration " + r["variant"]))
            total["unexplored"] += 1
            continue
        left = budget_total - (time.time() - t0 - tb)
        b = min(r.get("budget_" + tier, r.get("budget", 60)), left)
        if tier == "thorough":
            b = min(max(b, 600), left)
        if b < 2:
            per_run.append(dict(run=r["name"], skipped="time budget of the check used up"))
            total["unexplored"] += 1
            continue
        out = "%s/out-%d.json" % (BUILD, os.getpid())
        cmd = [BUILD + "/qsym/release/qsym", "%s/ir-%s/a.ll" % (BUILD, r["variant"]), "--entry", r["entry"], "--prop", str(r.get("prop", num)), "--jobs", str(jobs),
               "--budget", "%.1f" % b, "--params", ",".join(map(str, r["params"])), "--seed", str(seed), "--out", out] + r.get("opts", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=b + 120)
            d = json.load(open(out))
            os.remove(out)
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            msg = p.stdout.decode(errors="replace")[-500:] if isinstance(e, (OSError, ValueError)) else "timed out"
            errors.append("%s: executor failed: %s" % (r["name"], msg))
            total["unexplored"] += 1
            per_run.append(dict(run=r["name"], failed=msg))
            continue
        for k in total:
            total[k] += d.get(k, 0)
        solver_s += d["solver_us"] / 1e6
        funcs.update(d["functions"])
        errors += ["%s: %s" % (r["name"], e) for e in d["errors"][:3]]
        if d["samples"]:
            res, _ = replay(r["variant"], r["entry"], r.get("prop", num), r["params"], [s["inputs"] for s in d["samples"]])
            for s, g in zip(d["samples"], res + ["missing"] * len(d["samples"])):
                if g == "ok %d" % s["obs"]:
                    validated += 1
                else:
                    mismatches += 1
                    errors.append("%s: native run of a passing path gave '%s' for inputs %s" % (r["name"], g, s["inputs"]))
            samples += [dict(run=r["name"], inputs=s["inputs"], observations_hash=s["obs"]) for s in d["samples"][:2]]
        per_run.append(dict(run=r["name"], what=r["what"], variant=r["variant"], entry=r["entry"], params=r["params"], paths=d["paths"],
                            unexplored=d["unexplored"], error_paths=d.get("error_paths", 0), asserts=d["asserts"],
                            assert_queries=d["assert_queries"], solver_queries=d["solver_queries"], solver_s=round(d["solver_us"] / 1e6, 3),
                            instructions=d["instructions"], longest_path_instructions=d["max_steps"], symbolic_inputs=d["max_symbolic_inputs"],
                            preemption_forks=d["context_switch_forks"], exhaustive=d["unexplored"] == 0 and not d["errors"] and not d["violations"],
                            covers=d["covers"], wall_s=d["wall_s"]))
        for v in d["violations"]:
            got = confirm(r, num, v)
            if got is None:
                unconfirmed.append("%s: %s (%s) not reproduced natively, inputs %s" % (r["name"], v["kind"], v["msg"], v["inputs"]))
                continue
            os.makedirs(evid + "/replays", exist_ok=True)
            path = "%s/replays/%s.json" % (evid, pid)
            json.dump(dict(property=pid, run=r["name"], variant=r["variant"], entry=r["entry"], params=r["params"], kind=v["kind"],
                           message=v["msg"], prop=v["prop"], assertion=v["code"], inputs=v["inputs"], native_result=got,
                           stack=[demangle(t) for t in v["trace"]],
                           how="build/nat-%s/release/replay %s %d %s <file with the inputs, comma separated, on one line>" % (
                               r["variant"], r["entry"], r.get("prop", num), ",".join(map(str, r["params"])))), open(path, "w"), indent=1)
            violation = (path, v, got, r)
            break
        if violation:
            break
    exhaustive = not violation and total["unexplored"] == 0 and not errors and not unconfirmed
    repo_funcs = sorted({demangle(f) for f in funcs if "quick_cache" in f})
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
              assumptions=ASSUME + plan.get("assume", []),
              coverage=dict(
                  states=total["paths"], transitions=total["instructions"], traces_validated_against_impl=validated,
                  samples=samples[:12], exhaustive=exhaustive,
                  explanation="states: symbolic paths completed (each stands for every value of the symbolic inputs that follows it); transitions: IR instructions executed symbolically; traces validated: sampled paths replayed on the native build with equal observations",
                  bounds=plan["bounds"], functions_encoded=repo_funcs, functions_encoded_count=len(funcs),
                  queries=total["solver_queries"], queries_sat=total["solver_sat"], queries_unsat=total["solver_unsat"], queries_unknown=total["solver_unknown"],
                  queries_linear_integer=total["lia_queries"], solver_s=round(solver_s, 2),
                  assertions_checked=total["asserts"], assertions_decided_by_solver_query=total["assert_queries"],
                  assertions_constant_on_their_path=total["asserts_constant_on_path"],
                  branches_decided_by_known_facts=total["decided_syntactic"], branches_decided_by_cached_model=total["decided_cached_model"],
                  preemption_forks=total["context_switch_forks"], paths_ending_in_expected_panic=total["panics_expected"],
                  paths_outside_assumptions=total["killed"], paths_unexplored_at_budget=total["unexplored"], paths_not_encodable=total["error_paths"],
                  native_mismatches=mismatches, unconfirmed=unconfirmed[:5], encoding_errors=errors[:5], build_s=round(tb, 2), runs=per_run))
    with open("%s/%s.json" % (evid, pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d instructions, %d queries (%.1f s in Z3), %d assertions, %d unexplored, %d native replays agree, %.1f s" % (
        pid, tier, total["paths"], total["instructions"], total["solver_queries"], solver_s, total["asserts"], total["unexplored"], validated, time.time() - t0))
    for e in errors[:3] + unconfirmed[:3]:
        print("INCOMPLETE: " + e[:400])
    if violation:
        path, v, got, r = violation
        print("  run %s: %s %s; native: %s" % (r["name"], v["kind"], v["msg"], got))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
