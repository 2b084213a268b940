#!/usr/bin/env python3
"""Driver: run.py setup | check <id> [quick|thorough] | replay <id> <file>

A check regenerates the LLVM IR of /repo + harness, runs the symbolic engine on every instance of the
property, replays each counterexample on the natively built crate, and writes evidence/<id>.json.
exit 0: every assertion of every instance was discharged by the solver within the bounds.
exit 1: a counterexample was found and reproduced on the real code (VIOLATION line).
exit 2: no answer (build failure, engine limit, counterexample that does not reproduce)."""
import json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build  # noqa: E402
import props  # noqa: E402

CORES = 8
BIG = threading.Semaphore(2)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Procs:
    def __init__(self):
        self.live = set()
        self.lock = threading.Lock()
        self.stopped = False

    def run(self, cmd, timeout, env=None):
        with self.lock:
            if self.stopped:
                return None
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
            self.live.add(p)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kill(p)
            o, e = p.communicate()
        with self.lock:
            self.live.discard(p)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in list(self.live):
                self.kill(p)


def write_replay(path, inst, v):
    with open(path, "w") as f:
        f.write("# %s %s: %s\n" % (inst["entry"], v["kind"], v["msg"]))
        f.write("entry %s\n" % inst["entry"])
        for k, x in inst["params"].items():
            f.write("param %s %d\n" % (k, x))
        for n, h in v["inputs"]:
            f.write("input %s %s\n" % (n, h))
        for a, b in v["hashes"]:
            f.write("hash %s %s\n" % (a, b))
        for t in v["trace"]:
            f.write("# trace %s\n" % t)
        for b in v["backtrace"]:
            f.write("# at %s\n" % b)
        f.write("print\n")


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = props.PROPS[pid]
        self.feat = self.p["feature"]
        self.procs = Procs()
        self.out = os.path.join(build.TARGET, "out", pid)
        self.rep = os.path.join(build.TARGET, "replay", pid)
        for d in (self.out, self.rep):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self.scratch = os.path.join(build.TARGET, "scratch", pid)
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.nlock = threading.Lock()
        self.bins = {}
        self.validated = 0
        self.witness_runs = 0

    def native(self, shim):
        with self.nlock:
            if shim not in self.bins:
                t = time.time()
                self.bins[shim] = build.native(self.feat, shim)
                log("native build%s: %.1f s" % (" (shim)" if shim else "", time.time() - t))
            return self.bins[shim]

    def replay(self, path, shim, timeout=150):
        env = dict(os.environ, SYM_SCRATCH=self.scratch, SYM_TIMEOUT=str(timeout - 10))
        r = self.procs.run([self.native(shim), path], timeout, env)
        if r is None:
            return None, ""
        return r[0], r[1] + r[2]

    def engine(self, n, inst):
        o = os.path.join(self.out, "%03d.json" % n)
        lim = inst.get("time", 300 if self.tier == "quick" else 3000)
        cmd = [self.exe, "--ll", self.ll, "--entry", inst["entry"], "--out", o, "--time", str(lim), "--hard", str(inst.get("hard", 120)),
               "--max-violations", "2", "--witness", str(inst.get("witness", 2))]
        for k, v in inst["params"].items():
            cmd += ["--param", "%s=%d" % (k, v)]
        cmd += inst.get("flags", [])
        if self.tier == "thorough" and "--cross" not in cmd and inst.get("cross", True):
            cmd.append("--cross")
        t = time.time()
        r = self.procs.run(cmd, lim + 120)
        if r is None:
            return None
        if os.path.exists(o):
            try:
                d = json.load(open(o))
            except ValueError as e:
                d = {"status": "error", "errors": ["unreadable engine output %s" % e], "violations": []}
        else:
            d = {"status": "error", "errors": ["engine exit %s: %s" % (r[0], (r[1] + r[2])[-400:])], "violations": []}
        d["elapsed"] = time.time() - t
        return d

    def judge_violation(self, n, inst, k, v):
        """('violation', path) | ('noreplay', text)"""
        path = os.path.join(self.rep, "%03d-%d.replay" % (n, k))
        write_replay(path, inst, v)
        got = []
        for shim in ((True, False) if inst.get("shim_first") else (False, True)):
            for attempt in range(inst.get("replay_attempts", 1) if not shim else 1):
                try:
                    rc, text = self.replay(path, shim)
                except build.BuildError as e:
                    got.append("%s build: %s" % ("shim" if shim else "native", str(e)[-300:]))
                    break
                if rc is None:
                    return "stopped", ""
                # 10: assertion or panic on the real code; a signal (memory error, abort) counts as well; 40: no termination
                if rc == 10 or rc < 0 or rc == 134 or (rc == 40 and v["kind"] in ("hang", "deadlock")):
                    with open(path, "a") as f:
                        f.write("# reproduced on the %s build\n" % ("scheduling-shim" if shim else "native"))
                    return "violation", path
                got.append("%s exit %s %s" % ("shim" if shim else "native", rc, text[-200:]))
        if inst.get("ir_replay") and any("preempt" in t for t in v["trace"]):
            # a switch at an atomic operation cannot be forced on the native build: re-execute the compiled
            # code with every input and every switch fixed to the counterexample's
            o = path + ".json"
            cmd = [self.exe, "--ll", self.ll, "--entry", inst["entry"], "--out", o, "--time", "100", "--concrete", path]
            for x, y in inst["params"].items():
                cmd += ["--param", "%s=%d" % (x, y)]
            r = self.procs.run(cmd, 200)
            if r is None:
                return "stopped", ""
            if os.path.exists(o) and any(x["kind"] == v["kind"] for x in json.load(open(o)).get("violations", [])):
                with open(path, "a") as f:
                    f.write("# reproduced by concrete re-execution of the compiled code (switches at atomic operations)\n")
                return "violation", path
            got.append("concrete re-execution does not fail")
        return "noreplay", "; ".join(got)

    def judge(self, n, inst, d):
        """list of (kind, text)"""
        out = []
        for k, v in enumerate(d["violations"]):
            r, x = self.judge_violation(n, inst, k, v)
            if r == "violation":
                out.append(("violation", x, "%s: %s" % (v["kind"], v["msg"])))
                return out
            # "hang" is where the engine ran into a limit: an answer only if the native run does not end either
            if r == "noreplay" and v["kind"] != "hang":
                out.append(("error", "counterexample does not reproduce (%s: %s): %s" % (v["kind"], v["msg"], x), ""))
        if d["status"] == "error" or d.get("errors"):
            out.append(("error", "%s %s: %s" % (inst["entry"], inst["params"], d["errors"][:3]), ""))
        elif not d["violations"]:
            missing = [l for l in inst.get("reach", self.p.get("reach", {}).get(inst["entry"], [])) if l not in d["reached"]]
            if missing:
                out.append(("error", "%s %s: never reached %s" % (inst["entry"], inst["params"], missing), ""))
            for k, w in enumerate(d.get("witnesses", [])):
                path = os.path.join(self.rep, "%03d-w%d.replay" % (n, k))
                write_replay(path, inst, w)
                shim = bool(inst.get("shim_first"))
                rc, text = self.replay(path, shim)
                if rc is None:
                    break
                self.witness_runs += 1
                want = [t for t in w["trace"] if re.match(r"^[\w .]+=\d+$", t)]
                have = [l[6:] for l in text.splitlines() if l.startswith("TRACE ")]
                if rc != 0 or want != have:
                    rc2, text2 = self.replay(path, shim)
                    if rc2 == 10:
                        # the real code fails the property's assertion on a solver-produced input
                        out.append(("violation", path, "native run of a solver model: " + text2[-200:]))
                        return out
                    if rc2 is None:
                        break
                    rc, text = rc2, text2
                have = [l[6:] for l in text.splitlines() if l.startswith("TRACE ")]
                if rc != 0 or want != have:
                    out.append(("error", "%s %s: native run of a path model disagrees with the engine (exit %s, trace %s vs %s) %s"
                                % (inst["entry"], inst["params"], rc, want[:5], have[:5], text[-200:]), ""))
                else:
                    self.validated += 1
                    os.remove(path)
        return out

    def run(self):
        t0 = time.time()
        try:
            self.exe = build.engine()
            t = time.time()
            self.ll = build.ir(self.feat, self.p["entries"])
            self.ir_s = time.time() - t
        except build.BuildError as e:
            log(str(e))
            print("ERROR property=%s the tree does not build for the check" % self.pid)
            return 2
        insts = self.p["instances"](self.tier)
        log("%s %s: IR %.1f s, %d instances" % (self.pid, self.tier, self.ir_s, len(insts)))
        nb = threading.Thread(target=lambda: self._prebuild(insts))
        nb.start()
        order = sorted(range(len(insts)), key=lambda i: -insts[i].get("cost", 1))
        results, found, errors = {}, [], []

        def job(i):
            inst = insts[i]
            if inst.get("big"):
                with BIG:
                    return self.engine(i, inst)
            return self.engine(i, inst)

        with ThreadPoolExecutor(CORES) as ex:
            futs = {ex.submit(job, i): i for i in order}
            for f in as_completed(futs):
                i = futs[f]
                d = f.result()
                if d is None:
                    continue
                results[i] = d
                if found:
                    continue
                for r in self.judge(i, insts[i], d):
                    if r[0] == "violation":
                        found.append((i, r))
                        self.procs.stop()
                    elif r[0] == "error":
                        errors.append(r[1])
        nb.join()
        known = self.known(found)
        self.evidence(insts, results, time.time() - t0, found, errors)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if found:
            for i, r in found:
                log("%s %s" % (insts[i]["entry"], insts[i]["params"]))
                log("  " + r[2])
                print("VIOLATION property=%s replay=%s" % (self.pid, r[1]))
            return 1
        if errors:
            for e in errors[:10]:
                log("ERROR " + e)
            print("ERROR property=%s no answer: %s" % (self.pid, errors[0][:300]))
            return 2
        print("HOLDS property=%s instances=%d paths=%d assertions=%d queries=%d wall=%.1f" % (
            self.pid, len(insts), sum(d["paths"] for d in results.values()), sum(d["asserts"] for d in results.values()),
            sum(d["queries"] for d in results.values()), time.time() - t0))
        return 0

    def _prebuild(self, insts):
        for shim in (True, False):
            if any(bool(i.get("shim_first")) == shim for i in insts):
                try:
                    self.native(shim)
                except build.BuildError as e:
                    log("native build failed: " + str(e)[-1500:])

    def known(self, found):
        return []

    def evidence(self, insts, results, wall, found, errors):
        def tot(k):
            return sum(d.get(k, 0) for d in results.values())
        funcs, reached, outcomes = set(), {}, {}
        for d in results.values():
            funcs.update(d.get("functions", []))
            for k, v in d.get("reached", {}).items():
                reached[k] = reached.get(k, 0) + v
            for k, v in d.get("outcomes", {}).items():
                outcomes[k] = outcomes.get(k, 0) + v
        samples = []
        for i in sorted(results):
            for s in results[i].get("samples", [])[:1]:
                samples.append({"entry": insts[i]["entry"], "params": insts[i]["params"], "path": s[:600]})
        step = max(1, len(samples) // 8)
        per = [{"entry": insts[i]["entry"], "params": insts[i]["params"], "flags": insts[i].get("flags", []), "status": results[i]["status"],
                "paths": results[i].get("paths", 0), "queries": results[i].get("queries", 0), "solver_s": results[i].get("solver_s", 0),
                "wall_s": round(results[i]["elapsed"], 2)} for i in sorted(results)]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
            "coverage": {
                "states": tot("paths") + tot("infeasible"),
                "transitions": tot("steps"),
                "traces_validated_against_impl": self.validated,
                "samples": samples[::step][:8],
                "exhaustive": not errors and not found and len(results) == len(insts),
                "explanation": "states: symbolic execution paths; transitions: LLVM IR instructions executed symbolically; every assertion on "
                               "every path is decided by the SMT solver for all values of the symbolic inputs within the bounds; "
                               "traces_validated_against_impl: models of completed paths replayed on the natively compiled crate.",
                "bounds": self.p["bounds"][self.tier] if isinstance(self.p["bounds"], dict) else self.p["bounds"],
                "outside_bounds": self.p.get("outside", ""),
                "functions_encoded": sorted(funcs), "functions_executed_total": max([d.get("functions_executed", 0) for d in results.values()] or [0]),
                "assertions": tot("asserts"), "assertions_decided_by_solver": tot("asserts_symbolic"),
                "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
                "solver_s": round(tot("solver_s"), 3), "max_query_s": max([d.get("max_query_s", 0) for d in results.values()] or [0]),
                "crosschecked_with_cvc5": tot("crosschecked"), "crosscheck_disagreements": tot("cross_disagree"),
                "outcomes": outcomes, "reached": reached, "instances": per, "ir_build_s": round(self.ir_s, 2),
                "errors": errors[:10],
            },
            "assumptions": props.ASSUMPTIONS + self.p.get("assumptions", []),
            "wall_s": round(wall, 2), "violations": len(found),
        }
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(d, self.pid + ".json"))


def setup():
    build.engine()
    feats = sorted({p["feature"] for p in props.PROPS.values()})
    build.ir(feats[0], [e for p in props.PROPS.values() if p["feature"] == feats[0] for e in p["entries"]])
    build.native(feats[0], False)
    build.native(feats[0], True)
    print("setup done")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return setup()
    if a[:1] == ["check"] and len(a) >= 2 and a[1] in props.PROPS:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return Check(a[1], tier).run()
    if a[:1] == ["replay"] and len(a) == 3:
        c = Check.__new__(Check)
        c.pid, c.p, c.procs, c.nlock, c.bins = a[1], props.PROPS[a[1]], Procs(), threading.Lock(), {}
        c.feat = c.p["feature"]
        c.scratch = os.path.join(build.TARGET, "scratch", "replay")
        os.makedirs(c.scratch, exist_ok=True)
        for shim in (False, True):
            print("== %s" % ("scheduling-shim build" if shim else "native build"), c.replay(os.path.abspath(a[2]), shim))
        return 0
    print(__doc__)
    return 64


if __name__ == "__main__":
    sys.exit(main())
