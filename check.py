#!/usr/bin/env python3
"""Decides one property: check.py C01 --tier quick|thorough;  check.py --setup;  check.py --replay FILE

Builds LLVM IR of the harnesses together with the code in /repo, executes every harness
symbolically (see symex/), replays counterexamples and sample paths against a native build of the
same code, and writes evidence/<property>.json.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken, reproduced natively.
Exit 2: no answer (build failure, disagreement with the native build, or most of the instances
ran out of time or met something the engine cannot encode).
"""
import json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

import plan

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
ENGINE = os.path.join(BUILD, "engine", "release", "symex")
EVID = os.path.join(HERE, "evidence")
CORES = os.cpu_count() or 4
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LIMIT = dict(quick=int(os.environ.get("CHECK_LIMIT", "600")), thorough=2 * 3600)  # seconds; what is not finished by then is reported as unexplored
PROFILE = {"dev": ("symdev", "natdev"), "rel": ("symrel", "natrel")}


class Fail(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Fail("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(HERE, "symex"),
        env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "engine")))


def sysroot_bin(name):
    root = run(["rustc", "--print", "sysroot"], env=env()).strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


class Shard:
    """Some harnesses in one build mode."""

    def __init__(self, prop, mode, idx, items, serde):
        self.mode, self.items, self.serde = mode, items, serde
        self.dir = os.path.join(BUILD, prop, "%s%d" % (mode, idx))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.list = os.path.join(self.dir, "list.rs")
        with open(self.list, "w") as f:
            f.write("harnesses! {\n")
            for i in items:
                f.write('    "%s" => %s;\n' % (i["name"], i["body"]))
            f.write("}\n")
        self.ll = os.path.join(self.dir, "harness.ll")
        self.native = None
        self.native_error = None
        self.lock = threading.Lock()

    def build_ir(self):
        prof = PROFILE[self.mode][0]
        t = os.path.join(self.dir, "sym")
        cmd = ["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--profile", prof, "--offline", "--quiet"]
        if self.serde:
            cmd += ["--features", "p_serde"]
        run(cmd, cwd=os.path.join(HERE, "harness"), env=env(
            CARGO_TARGET_DIR=t, HARNESS_LIST=self.list,
            RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=yes"))
        d = os.path.join(t, prof, "deps")
        bc = [f for f in os.listdir(d) if f.startswith("harness.harness.") and f.endswith("-cgu.0.rcgu.bc")]
        if len(bc) != 1:
            raise Fail("expected one IR module, found %s" % bc)
        run([sysroot_bin("llvm-dis"), os.path.join(d, bc[0]), "-o", self.ll])
        shutil.rmtree(t, ignore_errors=True)

    def build_native(self):
        with self.lock:
            if self.native or self.native_error:
                return
            prof = PROFILE[self.mode][1]
            t = os.path.join(self.dir, "nat")
            cmd = ["cargo", "build", "--bin", "replay", "--profile", prof, "--offline", "--quiet",
                   "--features", "native" + (",p_serde" if self.serde else "")]
            try:
                run(cmd, cwd=os.path.join(HERE, "harness"), env=env(CARGO_TARGET_DIR=t, HARNESS_LIST=self.list))
                self.native = os.path.join(self.dir, "replay")
                shutil.copy(os.path.join(t, prof, "replay"), self.native)
                shutil.rmtree(t, ignore_errors=True)
            except Fail as e:
                self.native_error = str(e)

    def replay(self, lines, timeout):
        """Native outcomes of "<harness> <inputs>" lines; None for a run that does not end."""
        self.build_native()
        if self.native_error:
            raise Fail(self.native_error)
        try:
            r = subprocess.run([self.native], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=self.dir,
                               preexec_fn=limit_memory)
            out = r.stdout.splitlines()
            if len(out) < len(lines):
                out += ["crash"] + ["unknown"] * (len(lines) - len(out) - 1)
            return out
        except subprocess.TimeoutExpired:
            if len(lines) == 1:
                return [None]
            return [self.replay([l], timeout)[0] for l in lines]


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def symex(shard, item, deadline, tier, seed):
    left = deadline - time.time()
    if left < 5:
        return dict(error="not started: time limit", harness=item["name"])
    flags = list(item["flags"])
    cmd = [ENGINE, shard.ll, "--harness", "h_" + item["name"], "--timeout", str(int(left)), "--seed", str(seed),
           "--samples", "3", "--xcheck", "2", "--xfeas", "2", "--max-violations", "4"] + flags
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 5)
        return json.loads(r.stdout)
    except subprocess.TimeoutExpired:
        return dict(error="not finished: time limit", harness=item["name"])
    except ValueError:
        return dict(error="engine crashed: rc=%s %s" % (r.returncode, r.stderr[-300:]), harness=item["name"])


def confirmed(outcome):
    """A native outcome that shows the violation."""
    if outcome is None:
        return "does not terminate"
    o = outcome.split(" ")[0]
    if o.startswith("fail:"):
        return "assertion " + o[5:]
    if o == "panic":
        return "panic"
    if o == "crash":
        return "crash"
    return None



def check(prop, tier, seed):
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    cfg = plan.PROPS[prop]
    items = plan.plan(prop, tier)
    serde = cfg.get("serde", False)
    shards = []
    for mode in ("dev", "rel"):
        sel = sorted([i for i in items if mode in i["modes"]], key=lambda i: -i["cost"])
        n = min(cfg["shards"], len(sel))
        for j in range(n):
            shards.append(Shard(prop, mode, j, sel[j::n], serde))
    problems, found, results, unexplored = [], [], [], []
    stop = threading.Event()

    def build_one(f):
        try:
            f()
        except Fail as e:
            problems.append(str(e))

    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(build_one, build_engine)] + [ex.submit(build_one, s.build_ir) for s in shards]
        for f in fs:
            f.result()
    t_build = time.time() - t0
    if problems:
        for p in problems:
            print("NO-ANSWER property=%s %s" % (prop, p))
        return 2
    natives = ThreadPoolExecutor(2)
    nfs = [natives.submit(s.build_native) for s in shards]

    def job(s, i):
        if stop.is_set():
            return s, i, None
        r = symex(s, i, deadline, tier, seed)
        for v in r.get("violations", []):
            if stop.is_set():
                break
            line = " ".join([i["name"]] + v["inputs"])
            out = s.replay([line], 30)[0]
            why = confirmed(out)
            v["native"] = out
            if why:
                found.append(dict(property=prop, harness=i["name"], body=i["body"], mode=s.mode, serde=s.serde, inputs=v["inputs"],
                                  symbolic=dict(kind=v["kind"], check=v["id"], place=v["place"]), native=why))
                stop.set()
            elif v["kind"].startswith("hang"):
                # long, but it ends: the bound on steps per path was too small for this code
                unexplored.append("%s (%s): %s on inputs %s" % (i["name"], s.mode, v["kind"], line))
            else:
                problems.append("%s (%s): counterexample %s %s does not reproduce natively (%s)" % (i["name"], s.mode, v["kind"], line, out))
        return s, i, r

    jobs = sorted([(s, i) for s in shards for i in s.items], key=lambda x: -x[1]["cost"])
    with ThreadPoolExecutor(CORES) as ex:
        for f in as_completed([ex.submit(job, s, i) for (s, i) in jobs]):
            try:
                s, i, r = f.result()
            except Fail as e:
                problems.append(str(e))
                continue
            if r is None:
                continue
            results.append((s, i, r))
            if r["error"]:
                unexplored.append("%s (%s): %s" % (i["name"], s.mode, r["error"]))
            elif not r["violations"] and (r["completed"] == 0 or not r["checks_hit"]):
                problems.append("%s (%s): vacuous, no path reaches the assertion" % (i["name"], s.mode))
    t_sym = time.time() - t0 - t_build
    # sample paths, replayed against the native build of the same code
    traces, mismatches = 0, 0
    if not found:
        for f in nfs:
            f.result()
        for s in shards:
            ss = [(i, x) for (s2, i, r) in results if s2 is s for x in r.get("samples", []) if x["outcome"] in ("ok", "panic")]
            if not ss:
                continue
            try:
                out = s.replay([" ".join([i["name"]] + x["inputs"]) for (i, x) in ss], 60)
            except Fail as e:
                problems.append(str(e))
                continue
            for (i, x), o in zip(ss, out):
                want = "%s %s" % ({"ok": "ok", "panic": "panic-ok"}[x["outcome"]], ",".join(x["observes"]))
                if o is None or o.strip() != want.strip():
                    mismatches += 1
                    problems.append("%s (%s): native run of %s gives %r, symbolic run gave %r" % (i["name"], s.mode, x["inputs"], o, want))
                else:
                    traces += 1
    natives.shutdown(wait=True)
    os.makedirs(EVID, exist_ok=True)
    R = [r for (_, _, r) in results if "paths" in r]
    tot = lambda k: sum(r.get(k, 0) for r in R)
    repo_fns = sorted({f for r in R for f in r.get("repo_functions", [])})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=traces,
            samples=[dict(harness=i["name"], body=i["body"], mode=s.mode, **r["samples"][0]) for (s, i, r) in results if r.get("samples")][:6],
            meaning="states: symbolic paths, each standing for every input that satisfies its path condition; transitions: IR instructions executed symbolically",
            harness_instances=len(jobs), instances_finished=len([1 for r in R if not r["error"]]),
            bounds=[dict(harness=i["name"], body=i["body"], mode=s.mode, paths=r["paths"], completed=r["completed"], expected_panics=r["panics"],
                         queries=r["queries"], max_path_steps=r["max_path_steps"], max_frames=r["max_frames"], wall_ms=r["wall_ms"])
                    for (s, i, r) in sorted(results, key=lambda x: x[1]["name"]) if "paths" in r],
            queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), property_queries=tot("check_queries"),
            queries_in_order_theory=tot("order_queries"), queries_by_rewriting=tot("rewritten"), queries_cached=tot("cached"),
            queries_in_integer_arithmetic=tot("int_decided"), unsat_cross_checked_by_z3=tot("crosschecked"), cross_check_gave_no_answer=tot("cross_unknown"),
            solver_s=round(tot("solver_ms") / 1000, 1), build_s=round(t_build, 1), exploration_s=round(t_sym, 1),
            functions_encoded=repo_fns, library_functions_encoded_max=max([r["std_functions"] for r in R] or [0]), ir_functions_max=max([r["ir_functions"] for r in R] or [0]),
            sample_mismatches=mismatches, unexplored=unexplored, no_answer=problems,
        ),
        assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(found),
    )
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in shards:
        try:
            os.remove(s.ll)
        except OSError:
            pass
    print("%s %s: %d harness runs, %d paths, %d queries, %d native traces, build %.0f s, total %.0f s" % (
        prop, tier, len(results), tot("paths"), tot("queries"), traces, t_build, time.time() - t0))
    if "--slow" in sys.argv:
        for (s, i, r) in sorted(results, key=lambda x: -x[2].get("wall_ms", 10 ** 9))[:25]:
            print("  %8s ms %8s paths  %s %s" % (r.get("wall_ms"), r.get("paths"), i["name"], s.mode))
    if found:
        for n, v in enumerate(found):
            path = os.path.join(EVID, "%s-violation-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("%s: %s with inputs %s (%s build): %s" % (v["harness"], v["body"], " ".join(v["inputs"]), v["mode"], v["native"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for u in unexplored[:20]:
        print("UNEXPLORED property=%s %s" % (prop, u))
    if len(unexplored) * 2 > len(jobs):
        problems.append("more than half of the harness instances were not explored to the end")
    if problems:
        for p in problems[:20]:
            print("NO-ANSWER property=%s %s" % (prop, p))
        return 2
    return 0


ASSUMPTIONS = [
    "the LLVM IR that rustc emits (opt-level 2, fat LTO, one codegen unit, x86-64) is what is executed; the native replay uses the same source",
    "heap allocation always succeeds; hashing, I/O and threads are not involved in the checked code",
    "bounds: operand sizes, history lengths and element types as listed per harness under coverage.bounds; nothing is claimed beyond them",
    "trusted: the symbolic executor (/verif/symex) including its own SAT core; models are re-evaluated, a sample of unsat answers is re-decided by Z3, and sample paths are replayed natively on every run",
]


def replay_file(path):
    v = json.load(open(path))
    s = Shard("replay", v["mode"], 0, [dict(name=v["harness"], body=v["body"])], v.get("serde", False))
    out = s.replay([" ".join([v["harness"]] + v["inputs"])], 30)[0]
    print("%s with inputs %s: %s" % (v["body"], " ".join(v["inputs"]), out))
    return 1 if confirmed(out) else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        return 0
    if a and a[0] == "--replay":
        return replay_file(a[1])
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return check(a[0], tier, seed)
    except Fail as e:
        print("NO-ANSWER property=%s %s" % (a[0], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
