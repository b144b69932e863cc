"""Driver core: build /repo's current sources, encode with goto-cc, decide with CBMC, replay
counterexamples on the natively compiled real code, write evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = int(os.environ.get("VF_JOBS", "0")) or (os.cpu_count() or 4)

MEMCHECK = ["--bounds-check", "--pointer-check", "--pointer-primitive-check", "--div-by-zero-check"]


class Inconclusive(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None, stdin=None):
    """Run cmd (list); returns (rc, stdout, stderr); rc 'timeout' on timeout. Kills the whole group."""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            lim = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         cwd=cwd, env=env, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return "timeout", o.decode("utf8", "replace"), e.decode("utf8", "replace")


class Query:
    """One solver query: harness + the real sources it is linked with, and the bounds."""

    def __init__(self, name, harness, sources, includes=(), defines=(), unwind=6, unwindset=(),
                 checks=MEMCHECK, flags=(), timeout=240, about="", functions=(), native=True,
                 replay_extra=(), cbmc_extra=(), max_unwind=None, entry="harness", replay_flags=(),
                 native_sources=None, solver=None, object_bits=None, cbmc_flags=(), cbmc_map=None):
        self.cbmc_map = cbmc_map                 # (prefix, prefix)s: where CBMC finds sources and headers instead
        self.cbmc_flags = list(cbmc_flags)       # goto-cc only
        self.name = name
        self.harness = harness            # path of the harness .c
        self.sources = list(sources)      # real code (paths)
        self.includes = list(includes)
        self.defines = list(defines)
        self.unwind = unwind
        self.unwindset = list(unwindset)
        self.checks = list(checks)
        self.flags = list(flags)
        self.timeout = timeout
        self.about = about
        self.functions = list(functions)
        self.native = native
        self.replay_extra = list(replay_extra)   # native-only sources
        self.cbmc_extra = list(cbmc_extra)       # CBMC-only sources (models)
        self.max_unwind = max_unwind or unwind * 4
        self.entry = entry
        self.replay_flags = list(replay_flags)
        self.native_sources = native_sources
        self.solver = solver
        self.object_bits = object_bits


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.violations = []
        self.inconclusive = []
        self.results = []
        self.known = []
        self.notes = []
        self._objs = {}
        self._lock = threading.Lock()
        self.programs = []
        self.samples = []
        self.witness_ok = 0
        self.replayed = 0
        self.known_lines = load_known(prop)
        self.deadline = self.t0 + (780 if self.tier == "quick" else 6 * 3600)
        self.assumptions = []
        self.bounds = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------------------------ building
    def goto_cc(self, src, flags):
        key = (src, tuple(flags))
        with self._lock:
            fut = self._objs.get(key)
            owner = fut is None
            if owner:
                fut = cf.Future()
                self._objs[key] = fut
        if not owner:
            return fut.result()
        try:
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
            out = os.path.join(self.scratch, "o-" + h + ".gb")
            rc, o, e = sh(["goto-cc", "-c", "-o", out, src] + flags, timeout=120)
            if rc != 0 or not os.path.exists(out):
                raise Inconclusive("goto-cc failed on %s: %s" % (src, (o + e)[-1500:]))
            fut.set_result(out)
        except BaseException as ex:
            fut.set_exception(ex)
        return fut.result()

    def replay_dir(self, q):
        d = os.path.join(VERIF, "evidence", "replay", self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", q.name))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ solving
    def run_query(self, q):
        t0 = time.time()
        def m(x):
            for a, b in q.cbmc_map or ():
                if x.startswith(a):
                    return b + x[len(a):]
            return x
        inc = ["-I" + m(i) for i in [HARNESS] + q.includes]
        flags = inc + ["-D" + d for d in ["VF_CBMC"] + q.defines] + q.flags + q.cbmc_flags
        objs = [self.goto_cc(s, flags) for s in [q.harness, os.path.join(HARNESS, "vf_cbmc.c")]
                + [m(s) for s in q.sources] + q.cbmc_extra]
        qh = hashlib.sha1((q.name + repr(flags)).encode()).hexdigest()[:16]
        gb = os.path.join(self.scratch, "q-" + qh + ".gb")
        rc, o, e = sh(["goto-cc", "-o", gb, "--function", q.entry] + objs, timeout=120)
        if rc != 0 or not os.path.exists(gb):
            raise Inconclusive("goto-cc link failed for %s: %s" % (q.name, (o + e)[-1500:]))
        unwind = q.unwind
        while True:
            r = self._cbmc(gb, q, unwind)
            bound_fail = [f for f in r["failures"] if is_unwind(f["property"])]
            real_fail = [f for f in r["failures"] if not is_unwind(f["property"])]
            if bound_fail and not real_fail and unwind < q.max_unwind:
                unwind = min(unwind * 2, q.max_unwind)
                continue
            break
        q.gb, q.reached, q.final_unwind = gb, r["reached"], unwind
        r["unwind"] = unwind
        r["query"] = q.name
        r["about"] = q.about
        r["wall_s"] = round(time.time() - t0, 2)
        if real_fail:
            self._confirm(gb, q, unwind, real_fail, r)
        elif bound_fail:
            # a loop does not end within the bound: a hang in the real code, or a bound too small
            self._confirm(gb, q, unwind, bound_fail, r, hang=True)
        elif not r["reach"]:
            raise Inconclusive("%s: vacuous (the end of the harness is unreachable)" % q.name)
        return r

    def _cbmc_cmd(self, gb, q, unwind):
        cmd = ["cbmc", gb, "--function", q.entry, "--unwind", str(unwind), "--unwinding-assertions",
               "--no-malloc-may-fail", "--no-standard-checks", "--drop-unused-functions",
               "--json-ui", "--verbosity", "8"] + q.checks
        for u in q.unwindset:
            cmd += ["--unwindset", u]
        if q.solver:
            cmd += q.solver
        if q.object_bits:
            cmd += ["--object-bits", str(q.object_bits)]
        return cmd

    def _cbmc(self, gb, q, unwind):
        left = max(5, self.deadline - time.time())
        rc, o, e = sh(self._cbmc_cmd(gb, q, unwind), timeout=min(q.timeout, left), mem_gb=14)
        if rc == "timeout":
            raise Inconclusive("%s: no verdict within %d s" % (q.name, min(q.timeout, left)))
        try:
            msgs = json.loads(o)
        except ValueError:
            raise Inconclusive("%s: cbmc gave no verdict (rc %s): %s %s" % (q.name, rc, o[-600:], e[-600:]))
        res = None
        info = {"steps": 0, "vccs": 0, "solver_s": 0.0, "vars": 0, "clauses": 0}
        for m in msgs:
            if "result" in m:
                res = m["result"]
            t = m.get("messageText", "")
            a = re.search(r"size of program expression: (\d+) steps", t)
            if a:
                info["steps"] = int(a.group(1))
            a = re.search(r"Generated (\d+) VCC", t)
            if a:
                info["vccs"] = int(a.group(1))
            a = re.search(r"Runtime (?:decision procedure|Solver): ([\d.e+-]+)s", t)
            if a:
                info["solver_s"] = max(info["solver_s"], float(a.group(1)))
            a = re.search(r"(\d+) variables, (\d+) clauses", t)
            if a:
                info["vars"], info["clauses"] = int(a.group(1)), int(a.group(2))
        if res is None:
            tail = " | ".join(m.get("messageText", "") for m in msgs if m.get("messageType") == "ERROR")
            raise Inconclusive("%s: cbmc error (rc %s): %s" % (q.name, rc, tail[-800:]))
        failures, ok, reach, unknown, reached = [], 0, False, 0, []
        for p in res:
            d = p.get("description", "")
            if d == "vf_reach":
                if p["status"] == "FAILURE":
                    reach = True
                    reached.append(p["property"])
                continue
            if p["status"] == "SUCCESS":
                ok += 1
            elif p["status"] == "FAILURE":
                failures.append({"property": p["property"], "description": d,
                                 "loc": p.get("sourceLocation", {})})
            else:
                unknown += 1
        if unknown and not failures:
            raise Inconclusive("%s: %d properties without a status" % (q.name, unknown))
        info.update(properties=len(res), ok=ok, failures=failures, reach=reach, reached=reached)
        return info

    def trace_inputs(self, gb, q, unwind, prop):
        cmd = self._cbmc_cmd(gb, q, unwind) + ["--trace", "--property", prop]
        rc, o, e = sh(cmd, timeout=q.timeout * 2, mem_gb=20)
        if rc == "timeout":
            raise Inconclusive("%s: no trace within the time limit" % q.name)
        vals = []
        try:
            msgs = json.loads(o)
        except ValueError:
            raise Inconclusive("%s: unreadable trace" % q.name)
        found = False
        for m in msgs:
            for p in m.get("result", []):
                if p.get("property") == prop and p.get("trace"):
                    found = True
                    for st in p["trace"]:
                        if st.get("stepType") == "assignment" and st.get("lhs") == "vf_last" \
                                and st.get("sourceLocation", {}).get("function"):
                            b = st["value"].get("binary")
                            if b is not None:
                                vals.append(int(b, 2))
        return vals if found else None

    def write_replay(self, q, vals, label):
        d = self.replay_dir(q)
        with open(os.path.join(d, "inputs.txt"), "w") as f:
            f.write("\n".join(str(v) for v in vals) + "\n")
        srcs = [q.harness, os.path.join(HARNESS, "vf_native.c")] \
            + (q.native_sources if q.native_sources is not None else q.sources) + q.replay_extra
        # generated sources live in the scratch directory: keep copies beside the replay script
        flags = ["-D" + x for x in q.defines] + q.flags
        incs = [HARNESS] + q.includes
        mapping = {}

        def keep(path):
            if not path.startswith(self.scratch):
                return path
            rel = os.path.relpath(path, self.scratch)
            dst = os.path.join(d, "gen", rel)
            if path not in mapping:
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                if os.path.isdir(path):
                    shutil.copytree(path, dst, dirs_exist_ok=True,
                                    ignore=lambda dd, names: [n for n in names if not (
                                        n.endswith((".c", ".h", ".ccn")) or os.path.isdir(os.path.join(dd, n)))])
                else:
                    shutil.copy(path, dst)
                mapping[path] = dst
            return dst
        incs = [keep(i) for i in incs]
        srcs = [keep(s) for s in srcs]
        exe = "./replay.bin"
        lines = ["#!/bin/bash", "# %s" % label,
                 "# replays a solver counterexample of property %s, query %s" % (self.prop, q.name),
                 "cd \"$(dirname \"$0\")\" || exit 3",
                 "gcc -g -O0 -w -fsanitize=address,undefined -fno-sanitize=leak,function -fno-sanitize-recover=all "
                 "-fno-builtin " .replace("leak,function", "leak") +
                 " ".join(shq(x) for x in flags + q.replay_flags + ["-I" + i for i in incs] + srcs) +
                 " -o %s -lm || exit 76" % exe,
                 "export VF_INPUTS=\"$PWD/inputs.txt\"",
                 "export ASAN_OPTIONS=detect_leaks=0:exitcode=98:malloc_fill_byte=${VF_FILL:-190}"
                 ":max_malloc_fill_size=65536:detect_stack_use_after_return=0",
                 "export UBSAN_OPTIONS=exitcode=98:print_stacktrace=1",
                 "timeout 20 %s" % exe]
        p = os.path.join(d, "run.sh")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        os.chmod(p, 0o755)
        return p

    def native_replay(self, q, vals, label):
        """Returns (script, outcome, log) with outcome ok|assume|assert|memory|crash|hang|exit|build."""
        p = self.write_replay(q, vals, label)
        best = None
        for fill in ("190", "0", "255"):
            env = dict(os.environ, VF_FILL=fill)
            rc, o, e = sh(["bash", p], timeout=150, env=env)
            if rc == 0:
                out = "ok"
            elif rc == 77:
                out = "assume"
            elif rc == 99:
                out = "assert"
            elif rc == 98:
                out = "memory"
            elif rc in (124, "timeout"):
                out = "hang"
            elif rc == 76:
                out = "build"
            elif isinstance(rc, int) and (rc >= 128 or rc < 0):
                out = "crash"
            else:
                out = "exit"
            best = (p, out, (o + e)[-3000:])
            if out in ("assert", "memory", "crash", "hang", "build"):
                break
        return best

    def _confirm(self, gb, q, unwind, fails, r, hang=False):
        """Replay each failed property's counterexample natively; only reproduced ones are violations."""
        tried = []
        fails = sorted(fails, key=lambda f: (not f["description"].startswith("VF:"), f["property"]))
        for f in fails[:4]:
            label = "%s [%s]" % (f["description"], f["property"])
            vals = self.trace_inputs(gb, q, unwind, f["property"])
            if vals is None:
                tried.append(label + ": no trace")
                continue
            p, out, log = self.native_replay(q, vals, label)
            self.replayed += 1
            with open(os.path.join(os.path.dirname(p), "log.txt"), "w") as lf:
                lf.write("outcome: %s\n%s\n" % (out, log))
            if out in ("assert", "memory", "crash") or out == "hang":
                r["violation"] = label
                self.violation(q.name, label, p, log)
                return
            tried.append(label + ": replay gave '%s' %s" % (out, log.strip()[-300:]))
        raise Inconclusive("%s: counterexample(s) not reproduced on the real code: %s" % (q.name, "; ".join(tried)))

    def violation(self, qname, label, path, log=""):
        with self._lock:
            self.violations.append({"query": qname, "what": label, "replay": path})
        print("  query %s: %s" % (qname, label))
        for ln in log.strip().splitlines()[:6]:
            print("    | " + ln)
        sys.stdout.flush()

    def witness(self, q):
        """Replay the reachability witness of a passed query natively: harness and encoding agree with
        the real build on at least this run."""
        try:
            gb, reach = q.gb, q.reached
            vals = None
            for prop in reach[:3]:
                vals = self.trace_inputs(gb, q, q.final_unwind, prop)
                if vals is not None:
                    break
            if vals is None:
                return
            p, out, log = self.native_replay(q, vals, "reachability witness")
            if out == "ok":
                with self._lock:
                    self.witness_ok += 1
                    self.samples.append({"query": q.name, "witness_inputs": vals[:24], "native": "completed"})
            else:
                with self._lock:
                    self.notes.append("witness of %s: native outcome %s: %s" % (q.name, out, log[-300:]))
            shutil.rmtree(os.path.dirname(p), ignore_errors=True)
        except (Inconclusive, ValueError) as ex:
            self.notes.append("witness of %s: %s" % (q.name, ex))

    def run_all(self, queries, witnesses=2):
        def one(q):
            if time.time() > self.deadline:
                return q, None, "not started: time budget used up"
            if self.violations and not self.thorough:
                return q, None, "not started: a violation is already established"
            try:
                return q, self.run_query(q), None
            except Inconclusive as ex:
                return q, None, str(ex)
        passed = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for q, r, err in ex.map(one, queries):
                if err:
                    self.inconclusive.append(err)
                    print("  inconclusive: " + err[:600])
                else:
                    self.results.append(r)
                    if "violation" not in r:
                        passed.append(q)
                    if os.environ.get("VF_VERBOSE"):
                        print("  %-46s %s %6.1fs solver %.1fs props %d steps %d" % (
                            q.name, "FAIL" if "violation" in r else "ok", r["wall_s"], r["solver_s"],
                            r["properties"], r["steps"]))
            if not self.violations and passed and witnesses:
                import random
                rnd = random.Random(self.seed)
                pick = rnd.sample([q for q in passed if q.native], min(witnesses, len([q for q in passed if q.native])))
                list(ex.map(self.witness, pick))
        return passed

    # ------------------------------------------------------------------ finishing
    def finish(self, level, functions, explanation, extra=None):
        wall = time.time() - self.t0
        cov = {
            "explanation": explanation,
            "states": sum(r["steps"] for r in self.results),
            "transitions": sum(r["vccs"] for r in self.results),
            "traces_validated_against_impl": self.witness_ok + self.replayed,
            "counting": "states = symbolic execution steps (SSA steps) encoded; transitions = verification "
                        "conditions generated from them; traces_validated = solver models replayed on the "
                        "natively built real code in this run",
            "queries": len(self.results),
            "queries_discharged": sum(1 for r in self.results if "violation" not in r),
            "properties_checked": sum(r["properties"] for r in self.results),
            "properties_discharged": sum(r["ok"] for r in self.results),
            "solver_s": round(sum(r["solver_s"] for r in self.results), 2),
            "cbmc_wall_s": round(sum(r["wall_s"] for r in self.results), 2),
            "functions_encoded": functions,
            "bounds": self.bounds,
            "inconclusive": self.inconclusive,
            "notes": self.notes,
            "known_findings": self.known,
            "samples": (self.samples + [{"query": r["query"], "about": r["about"], "unwind": r["unwind"],
                                         "properties": r["properties"], "steps": r["steps"], "solver_s": r["solver_s"]}
                                        for r in self.results])[:60],
        }
        if self.programs:
            cov["programs"] = len(self.programs)
            cov["program_names"] = self.programs
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            v = self.violations[0]
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
            return 1
        if self.inconclusive and len(self.inconclusive) <= cov["queries_discharged"]:
            # everything explored held; what was not explored is listed here and in the evidence
            print("PARTIAL property=%s queries=%d undecided=%d wall=%.0fs" % (
                self.prop, len(self.results), len(self.inconclusive), wall))
            return 0
        if self.inconclusive:
            print("INCONCLUSIVE property=%s: %d quer(ies) without a verdict" % (self.prop, len(self.inconclusive)))
            return 2
        print("OK property=%s queries=%d properties=%d wall=%.0fs" % (
            self.prop, len(self.results), cov["properties_checked"], wall))
        return 0


def is_unwind(p):
    return ".unwind." in p or ".recursion" in p


def shq(s):
    import shlex
    return shlex.quote(s)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(ln[len("KNOWN-FINDING: property=%s " % prop):])
    return out
