"""Shared machinery: builds drivers from /repo's working tree, runs TLC, validates
recorded traces against the TLA+ specifications, writes evidence and verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import pwd
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
CXX = os.environ.get("VERIF_CXX") or ("g++-9" if shutil.which("g++-9") else "g++")
CXXFLAGS = ["-std=c++14", "-O2", "-msse4", "-Wno-invalid-offsetof", "-w", "-g0"]
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODVER = 1


class CheckError(Exception):
    """The check itself could not be carried out (build failure, model failure...)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        os.chmod(self.work, 0o755)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.known = []
        self.actions = {}
        self.exhaustive_models = []

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def build(self, name, repo_sources=(), libs=(), flags=(), src=None):
        """Compiles drivers/<name>.cpp together with sources of /repo's tree."""
        out = os.path.join(self.work, name)
        objs = []
        jobs = []
        srcs = [os.path.join(DRV, src or (name + ".cpp"))]
        for s in repo_sources:
            srcs.append(os.path.join(REPO, s))
        for i, s in enumerate(srcs):
            o = "%s.%d.o" % (out, i)
            objs.append(o)
            jobs.append([CXX] + CXXFLAGS + list(flags) +
                        ["-I" + REPO, "-I" + os.path.join(REPO, "datas"), "-I" + DRV,
                         "-c", s, "-o", o])
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
        for c, r in zip(jobs, rs):
            if r.returncode:
                raise CheckError("build of %s failed:\n%s" % (name, r.stderr[-4000:]))
        r = subprocess.run([CXX] + objs + ["-o", out, "-pthread"] + list(libs),
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link of %s failed:\n%s" % (name, r.stderr[-4000:]))
        return out

    def usable(self, name, what, flags=()):
        """drivers/<name>.cpp only uses what the headers offer: with the uses (without -DONLY_HEADERS) it must
        compile whenever the headers on their own do."""
        def comp(*more):
            return subprocess.run([CXX] + CXXFLAGS + list(flags) + list(more) +
                                  ["-I" + REPO, "-I" + os.path.join(REPO, "datas"), "-I" + DRV, "-fsyntax-only",
                                   os.path.join(DRV, name + ".cpp")], capture_output=True, text=True)
        r = comp()
        if r.returncode:
            if comp("-DONLY_HEADERS").returncode:
                raise CheckError("build of %s failed:\n%s" % (name, r.stderr[-4000:]))
            self.violate(name, {"what": what, "died": r.stderr[-3000:]})
        self.events += 1

    # --------------------------------------------------------------- driver
    def run_driver(self, exe, args=(), stdin_text=None, timeout=120, cwd=None, unpriv=False,
                   env=None):
        """Returns (returncode or 'timeout', stdout, stderr)."""
        pre = None
        if unpriv and os.getuid() == 0:
            pw = pwd.getpwnam("nobody")

            def pre():
                os.setgroups([])
                os.setgid(pw.pw_gid)
                os.setuid(pw.pw_uid)
        e = dict(os.environ)
        e.update({"LC_ALL": "C.UTF-8"})
        if env:
            e.update(env)
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=cwd or self.work, preexec_fn=pre, env=e,
                             start_new_session=True)
        try:
            o, er = p.communicate((stdin_text or "").encode(), timeout=timeout)
            return p.returncode, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, er = p.communicate()
            return "timeout", o.decode("utf-8", "replace"), er.decode("utf-8", "replace")

    def exec_ops(self, exe, ops, timeout=120, **kw):
        """Feeds the op lines (list of (record, line)) to a driver that answers one JSON
        object per line; returns the trace (records extended with the answers)."""
        text = "".join(l + "\n" for _, l in ops)
        rc, out, err = self.run_driver(exe, stdin_text=text, timeout=timeout, **kw)
        lines = out.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        res = []
        for i, (rec, l) in enumerate(ops):
            if i >= len(lines):
                break
            try:
                ans = json.loads(lines[i])
            except ValueError:
                if i == len(lines) - 1 and rc != 0:
                    break
                raise CheckError("driver answered garbage on %r: %r" % (l, lines[i][:300]))
            r = dict(rec)
            r.update(ans)
            res.append(r)
        died = None
        if len(res) < len(ops):
            died = "%s after %d of %d calls; next call: %s" % (
                "hung" if rc == "timeout" else "died (status %s)" % rc, len(res), len(ops),
                ops[len(res)][1][:300])
        elif rc != 0:
            died = "exit status %s at the end; stderr: %s" % (rc, err[-300:])
        return res, died

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, mem="3g",
            deadlock=False):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xmx" + mem, "-Xss16m", "-DTLA-Library=" + SPEC,
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(SPEC, module)]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout,
                               cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg, workers=4, timeout=800, what="", extra=()):
        """Exhaustive check of the specification's own properties (bounded constants)."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, mem="8g")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise CheckError("the specification itself fails: %s %s\n%s"
                             % (module, cfg, out[-4000:]))
        gen, dist = map(int, m[-1])
        self.states += dist
        self.transitions += gen
        self.parts.append({"model": module, "config": cfg, "states_generated": gen,
                           "distinct_states": dist, "what": what})
        return gen, dist

    def generate(self, module, cfg, num=None, depth=None, timeout=300, extra_env=None,
                 workers=1):
        """Behaviours of the specification: lines PROG <json> printed by TLC."""
        extra = []
        if num:
            extra = ["-simulate", "num=%d" % num, "-seed", str(self.seed * 7919 + 13)]
            if depth:
                extra += ["-depth", str(depth)]
        rc, out = self.tlc(module, cfg, extra=extra, timeout=timeout, env=extra_env,
                           workers=workers)
        progs = []
        for l in out.split("\n"):
            l = l.strip()
            if l.startswith('"PROG '):
                progs.append(json.loads(json.loads(l)[5:]))
        if num:      # invariants are evaluated on every candidate last step: keep one each
            seen = set()
            uniq = []
            for p in progs:
                k = json.dumps(p[:-1] if isinstance(p, list) else p, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    uniq.append(p)
            progs = uniq
        if not progs:
            raise CheckError("no behaviours generated by %s %s:\n%s" % (module, cfg, out[-3000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.parts.append({"generator": module, "config": cfg, "behaviours": len(progs),
                           "mode": "simulate" if num else "exhaustive"})
        return progs

    def validate(self, module, cfg, trace, timeout=800, tag="t", mem="3g"):
        """Is the recorded trace a behaviour of the specification?  Returns (ok, info)."""
        f = os.path.join(self.work, "%s_%d.ndjson" % (tag, time.time_ns()))
        with open(f, "w") as h:
            for r in trace:
                h.write(json.dumps(r, separators=(",", ":")) + "\n")
        rc, out = self.tlc(module, cfg, env={"TRACE": f}, timeout=timeout, mem=mem)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        os.unlink(f)
        if "TRACE-ACCEPTED" in out and "No error has been found" in out and rc == 0:
            return True, {"states": int(m[-1][1]) if m else 0}
        q = re.findall(r"TRACE-REJECTED-AT\D+(\d+)", out)
        if q:
            at = int(q[-1])
            mm = re.findall(r"<<[ \n]*\"MISMATCH\".*?>>(?=\n[A-Z<T]|\nFinished|\nModel|\nError|\Z)", out, re.S)
            return False, {"at": at, "detail": (mm[-1][:40000] if mm else ""),
                           "states": int(m[-1][1]) if m else 0}
        # what was recorded is outside of what the specification can even evaluate
        if re.search(r"^Error: (Attempted to|In applying|The first argument|The second argument|The argument of|"
                     r"Evaluating|TLC threw an unexpected exception)", out, re.M) and "OutOfMemory" not in out \
                and re.findall(r"^State (\d+):", out, re.M):
            at = max(int(x) for x in re.findall(r"^State (\d+):", out, re.M))
            return False, {"at": min(at, len(trace)), "states": 0,
                           "detail": out[out.index("Error:"):][:600]}
        e = out.find("Error:")
        raise CheckError("TLC failed on a trace of %s:\n%s\n%s" % (module, out[e:e + 1500] if e >= 0 else "", out[-3000:]))

    # ----------------------------------------------------- sessions -> verdict
    def conform(self, exe, module, cfg, sessions, part, chunk=4000, timeout=120, par=6,
                unpriv=False, cwd_factory=None, mem="3g", exec_fn=None):
        """sessions: list of lists of (record, line).  Every session starts from the
        specification's initial state (its first record resets).  Executes all of them
        in the real code and validates the recorded traces with TLC."""
        chunks = []
        cur = []
        n = 0
        for s in sessions:
            if cur and n + len(s) > chunk:
                chunks.append(cur)
                cur, n = [], 0
            cur.append(s)
            n += len(s)
        if cur:
            chunks.append(cur)

        def run(ss):
            ops = [o for s in ss for o in s]
            kw = {}
            if unpriv:
                kw["unpriv"] = True
            if cwd_factory:
                kw["cwd"] = cwd_factory()
            if exec_fn:
                tr, died = exec_fn(exe, ops, timeout=timeout, **kw)
            else:
                tr, died = self.exec_ops(exe, ops, timeout=timeout, **kw)
            ok, info = (True, {"states": 0})
            if tr:
                ok, info = self.validate(module, cfg, tr, tag=part, mem=mem)
            return ss, ops, tr, died, ok, info

        def bad_session(ss, idx):
            k = 0
            for s in ss:
                if idx < k + len(s):
                    return s, k
                k += len(s)
            return ss[-1], k - len(ss[-1])

        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(run, chunks))
        nev = 0
        for ss, ops, tr, died, ok, info in results:
            nev += len(tr)
            if ok and not died:
                continue
            idx = (info["at"] - 1) if not ok else len(tr)
            if idx >= len(ops):
                idx = len(ops) - 1
            s, base = bad_session(ss, idx)
            # repeat: first the session on its own, then the whole chunk
            for rep in ([s], ss):
                _, ops2, tr2, died2, ok2, info2 = run(rep)
                if not ok2 or died2:
                    i2 = (info2["at"] - 1) if not ok2 else len(tr2)
                    i2 = min(i2, len(ops2) - 1)
                    self.violate(part, {
                        "specification": module, "config": cfg,
                        "failing_call": ops2[i2][1], "index": i2,
                        "recorded": tr2[i2] if i2 < len(tr2) else None,
                        "died": died2, "tlc": info2,
                        "session_ops": [l for _, l in (rep[0] if rep == [s] else s)],
                        "driver": os.path.basename(exe)})
            raise CheckError("a rejection did not repeat: %s line %s %s %s"
                             % (part, ops[idx][1][:300], died, info))
        self.traces += sum(len(c) for c in chunks)
        self.events += nev
        self.parts.append({"conformance": part, "specification": module,
                           "sessions": len(sessions), "events_validated": nev})
        return results

    def violate(self, part, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        blob = json.dumps(data, indent=1, default=str)
        h = hashlib.sha1(blob.encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s-%s.json" % (self.pid, part, h))
        with open(p, "w") as f:
            f.write(blob)
        raise Violation("%s: %s" % (part, str(data.get("failing_call") or data.get("what"))[:200]),
                        p)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def evidence(self, level, violations=0, assumptions=()):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events,
               "samples": self.samples, "parts": self.parts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


# ------------------------------------------------------------------ helpers
def hx(b):
    """bytes -> token (never empty)"""
    return "x" + bytes(b).hex()


def le(v, n):
    return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                res.append(l)
    return res
