#!/usr/bin/env python3
"""Decides one property: builds the harnesses against /repo's current tree,
executes them symbolically, replays counterexamples natively, writes evidence.

exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import json, os, re, shutil, subprocess, sys, time, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
T0 = time.time()
# frames of the code under study, as opposed to harness and libraries
OWN = re.compile(r"parquet_format_safe::")


class NoAnswer(Exception):
    pass


def env(target):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def spawn(cmd, cwd, target):
    os.makedirs(os.path.join(BUILD, target), exist_ok=True)
    log = os.path.join(BUILD, target + ".log")
    f = open(log, "w")
    return subprocess.Popen(cmd, cwd=cwd, env=env(target), stdout=f, stderr=subprocess.STDOUT), log


def wait(job, what):
    p, log = job
    if p.wait() != 0:
        t = open(log).read()
        raise NoAnswer("building %s failed:\n%s" % (what, t[-3000:]))


def stale(target):
    """forget what cargo remembers about the code under study"""
    for prof in ("release", "debug"):
        d = os.path.join(BUILD, target, prof, ".fingerprint")
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith(("parquet-format-safe", "pfs-harness")):
                    shutil.rmtree(os.path.join(d, x))


def harness_src():
    """the harness crate, pointed at REPO (a copy only if REPO is not /repo)"""
    h = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return h
    d = os.path.join(BUILD, "harness")
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(h, d)
    f = os.path.join(d, "Cargo.toml")
    t = open(f).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(f, "w").write(t)
    return d


def build(feat):
    stale("ir-" + feat)
    stale("native-" + feat)
    src = harness_src()
    jobs = []
    eng = spawn(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "engine"), "engine")
    ir = spawn(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", feat,
                "--", "--emit=llvm-ir"], src, "ir-" + feat)
    nat = spawn(["cargo", "build", "--offline", "--bin", "replay", "--features", "native," + feat], src, "native-" + feat)
    wait(eng, "the engine")
    wait(ir, "the harness (IR)")
    ll = os.path.join(BUILD, "ir-" + feat, "release/deps/pfs_harness.ll")
    return os.path.join(BUILD, "engine/release/irsym"), ll, nat, os.path.join(BUILD, "native-" + feat, "debug/replay")


def replay(binary, runs, timeout=20):
    """runs: (name, case, inputs) -> outcome, message, observations; a run that
    kills or blocks the process counts as a panic or a hang"""
    out = []
    i = 0
    while i < len(runs):
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        txt = "".join("%s %d %s\n" % (n, c, ",".join(map(str, x))) for n, c, x in runs[i:])
        try:
            so, se = p.communicate(txt, timeout=timeout + 0.05 * len(runs))
            hang = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            hang = True
        lines = so.split("\n")
        lines = lines[:-1]
        for l in lines:
            o, m, b = l.split("|", 2)
            obs = [tuple(map(int, t.split(":"))) for t in b.split(",") if t]
            out.append((o, m, obs))
        i += len(lines)
        if i < len(runs):
            if hang:
                out.append(("hang", "no result within %d s" % timeout, []))
            elif p.returncode != 0:
                out.append(("panic", ("process ended with status %d: %s" % (p.returncode, se.strip()[-300:])).replace("\n", " "), []))
            else:
                raise NoAnswer("replay produced no output")
            i += 1
    return out


def reproduced(v, o):
    kind, msg = o[0], o[1]
    if v["kind"] == "assert":
        return kind == "assert" and msg.split(":")[0] == v["what"]
    if v["kind"] == "panic":
        return kind == "panic"
    return kind == v["kind"]


def known(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    r = []
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) case=(\S+) match=\"(.*?)\" (.*)", l.strip())
        if m and m.group(1) == pid:
            r.append(m.groups())
    return r


def second_solver(queries, budget):
    """the same queries, printed as SMT-LIB, put to other solvers"""
    res = {"cvc5": [0, 0], "z3-new": [0, 0]}
    t1 = time.time() + budget
    for q in queries:
        if time.time() > t1:
            break
        want = q.split("\n", 1)[0].split()[-1]
        for s, cmd in (("cvc5", ["cvc5", "--tlimit=20000", "-"]), ("z3-new", ["z3-new", "-T:20", "-in"])):
            if not shutil.which(cmd[0]):
                continue
            o = subprocess.run(cmd, input=q, capture_output=True, text=True).stdout.strip()
            if o in ("sat", "unsat"):
                res[s][0] += 1
                if o != want:
                    raise NoAnswer("%s answers %s where Z3 answered %s" % (s, o, want))
            else:
                res[s][1] += 1
    return {k: {"agree": v[0], "no_answer": v[1]} for k, v in res.items()}


def main():
    if sys.argv[1] == "--setup":
        # checks build what they need; this shows early that the engine builds
        wait(spawn(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "engine"), "engine"), "the engine")
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))[pid]
    feat = pid.lower()
    names = cfg["harnesses"]
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    engine, ll, nat, rbin = build(feat)
    t_build = time.time() - T0
    out = os.path.join(BUILD, "out-%s.json" % feat)
    if os.path.exists(out):
        os.remove(out)
    dl = {"quick": 420, "thorough": 5400}[tier]
    dl = int(os.environ.get("VERIF_DEADLINE", dl))
    cmd = [engine, "--ll", ll, "--out", out, "--tier", tier, "--threads", str(min(8, os.cpu_count() or 8)), "--deadline", str(dl),
           "--seed", str(seed), "--samples", "1", "--max-viol", "3", "--smt", "1"] + names
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("engine ended with status %d\n%s" % (r.returncode, r.stderr[-3000:]))
    d = json.load(open(out))
    wait(nat, "the harness (native)")

    # counterexamples: only what the real code reproduces is reported
    vs = [(h["name"], v) for h in d["harnesses"] for v in h["violations"]]
    problems = []
    confirmed = []
    if vs:
        rs = replay(rbin, [(n, v["case"], v["inputs"]) for n, v in vs[:200]])
        for (n, v), o in zip(vs, rs):
            if reproduced(v, o):
                confirmed.append((n, v, o))
            else:
                problems.append("counterexample of %s case %d (%s %s, inputs %s) does not reproduce natively: %s %s" % (
                    n, v["case"], v["kind"], v["what"], v["inputs"], o[0], o[1]))
    # traces: sampled paths run natively must do what the executor says
    rnd = random.Random(seed)
    sm = [(h["name"], s) for h in d["harnesses"] for s in h["samples"]]
    rnd.shuffle(sm)
    sm = sm[: {"quick": 1500, "thorough": 6000}[tier]]
    traces = 0
    if sm:
        for (n, s), o in zip(sm, replay(rbin, [(n, s["case"], s["inputs"]) for n, s in sm])):
            if o[0] == "ok" and [list(x) for x in o[2]] == s["obs"]:
                traces += 1
            else:
                problems.append("trace of %s case %d (inputs %s) differs natively: %s %s\n executor %s\n native %s" % (
                    n, s["case"], s["inputs"], o[0], o[1], s["obs"][:80], [list(x) for x in o[2]][:80]))
    for h in d["harnesses"]:
        for e in h["errors"]:
            problems.append("%s: %s" % (h["name"], e))
        for e in h["incomplete"]:
            problems.append("%s incomplete: %s" % (h["name"], e))
        if h["skipped"]:
            problems.append("%s: %d cases not reached before the deadline" % (h["name"], h["skipped"]))
        if not h["violations"]:
            # vacuity: the harness must have got to its marks and assertions
            want = cfg.get("reach", {}).get(h["name"], [1])
            for k in want:
                if k not in h["reach"]:
                    problems.append("%s never reached mark %d" % (h["name"], k))
            if not h["stats"]["asserts"] or not h["cases"]:
                problems.append("%s evaluated no assertion" % h["name"])
            if h["stats"]["paths"] <= h["stats"]["cut"]:
                problems.append("%s completed no path" % h["name"])
    cross = {}
    if not confirmed:
        cross = second_solver([q for q in rnd.sample(d.get("smt", []), min({"quick": 40, "thorough": 400}[tier], len(d.get("smt", []))))],
                              {"quick": 15, "thorough": 300}[tier])
    tot = lambda k: sum(h["stats"][k] for h in d["harnesses"])
    own = sorted({re.sub(r"::<.*", "", f) if f.startswith("parquet") else f for f in d["functions"] if OWN.search(f)})
    sample = [{"harness": n, "case": s["case"], "inputs": s["inputs"], "observed": s["obs"][:64]} for n, s in sm[:5]]
    coverage = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": traces,
        "samples": sample or [{"harness": h["name"], "cases": h["cases"], "assertions": h["stats"]["asserts"]} for h in d["harnesses"]],
        "bounds": cfg["bounds"],
        "outside": cfg.get("outside", ""),
        "cases": {h["name"]: h["cases"] for h in d["harnesses"]},
        "paths_cut_by_harness": tot("cut"),
        "instructions_executed": tot("insts"),
        "assertions_evaluated": tot("asserts"),
        "assertions_true_by_simplification": tot("asserts_const"),
        "assertions_put_to_solver": tot("asserts_solver"),
        "queries_discharged": tot("queries"),
        "queries_sat": tot("sat"),
        "queries_unsat": tot("unsat"),
        "queries_unknown": tot("unknown"),
        "branches_symbolic": tot("branch_sym"),
        "branches_by_truth_table": tot("branch_dom"),
        "solver": "Z3 " + d["solver"],
        "solver_time_s": round(tot("solver_s"), 3),
        "solver_slowest_query_s": max(h["stats"]["solver_max_s"] for h in d["harnesses"]),
        "second_solvers": cross,
        "functions_encoded": own,
        "functions_encoded_total_with_libraries": len(d["functions"]),
        "build_s": round(t_build, 1),
        "engine_s": d["wall_s"],
        "not_answered": problems[:20],
    }
    rc = 0
    lines = []
    kn = known(pid)
    new = []
    for n, v, o in confirmed:
        m = o[1] if o[0] != "assert" else o[1].split(":", 1)[1]
        k = [x for x in kn if x[1] == n and (x[2] == "*" or x[2] == str(v["case"])) and x[3] in m]
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0][4]))
        else:
            new.append((n, v, o, m))
    seen = set()
    if new:
        rc = 1
        for i, (n, v, o, m) in enumerate(new):
            if (n, m) in seen or len(seen) >= 5:
                continue
            seen.add((n, m))
            f = os.path.join(ev, "%s.replay.%d.json" % (pid, len(seen)))
            json.dump({"property": pid, "harness": n, "case": v["case"], "inputs": v["inputs"], "kind": v["kind"], "message": m,
                       "stack_in_executor": v["stack"], "observed_natively": o[2][:200],
                       "rerun": "echo '%s %d %s' | %s" % (n, v["case"], ",".join(map(str, v["inputs"])), rbin)}, open(f, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (pid, f))
            lines.append("  %s (harness %s, case %d, inputs %s)" % (m, n, v["case"], v["inputs"][:40]))
    elif problems:
        rc = 2
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
               "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 1), "violations": len(new)},
              open(evf, "w"), indent=1)
    for l in dict.fromkeys(lines):
        print(l)
    if rc == 2:
        print("NO ANSWER property=%s" % pid)
        for p in problems[:10]:
            print("  " + p[:1500])
    print("%s %s: %d paths, %d assertions (%d by solver), %d queries (%d unsat) in %.1f s solver, build %.0f s, total %.0f s" % (
        pid, {0: "held", 1: "VIOLATED", 2: "undecided"}[rc], tot("paths"), tot("asserts"), tot("asserts_solver"), tot("queries"), tot("unsat"),
        tot("solver_s"), t_build, time.time() - T0))
    return rc


COMMON = [
    "the code is what rustc 1.99.1 compiles to LLVM IR at opt-level 1 with overflow checks; the executor's reading of that IR is trusted, "
    "and compared with the native build on the sampled traces",
    "alloc::fmt::format returns a fixed text: message texts are not modelled",
    "memory is not reclaimed between allocations of a path; allocation requests above 64 MiB fail, smaller ones succeed",
    "more than 2000 nested calls count as stack exhaustion, more than 50 million steps as not terminating",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
