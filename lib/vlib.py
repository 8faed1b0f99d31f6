"""Shared machinery of the checks: running TLC, judging traces, writing evidence, reporting.

A check is a Python module checks/<ID>.py with a function main(ctx). It calls ctx.violation(...) for
every deviation it has confirmed, fills ctx.cov, and returns. run.py does the rest.
"""
import concurrent.futures
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"
sys.path.insert(0, os.path.join(VERIF, "rig"))


class CheckError(Exception):
    """the machinery, not the code under test, failed"""


# ---------------------------------------------------------------- TLC

def _tlc_cmd():
    exe = shutil.which("tlc") or "/usr/local/bin/tlc"
    return [exe]


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
            re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out.replace(",", ""))
        if m and not self.generated:
            self.generated = int(m.group(1))
        self.ok = "Model checking completed. No error has been found." in out or \
                  ("Finished in" in out and "Error:" not in out)

    def printed(self):
        """values printed with PrintT(<<"JSON", string>>)"""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            m = re.match(r'<<"JSON", "(.*)">>$', line)
            if m:
                s = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
                res.append(json.loads(s))
        return res

    def coverage(self):
        """per-action (distinct, total) from -coverage output"""
        cov = {}
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)", self.out):
            cov[m.group(1)] = (int(m.group(3)), int(m.group(4)))
        return cov


def tlc(module, cfg_text, files=None, workdir=None, args=(), timeout=600, workers="4", keep=False, heap="3g"):
    """runs TLC on specs/<module>.tla with the configuration text; files: {name: content} laid beside it"""
    d = tempfile.mkdtemp(prefix="tlc_", dir=workdir)
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss32m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, d)
        cmd = _tlc_cmd() + ["-config", module + ".cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
                            "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
        return TlcResult(r.returncode, r.stdout + r.stderr, time.time() - t)
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


INT_MAX = 2**31 - 1


def check_ints(o, path=""):
    """TLC silently wraps wide integers and has no reals: refuse them"""
    if isinstance(o, bool) or isinstance(o, str) or o is None:
        return
    if isinstance(o, int):
        if abs(o) > INT_MAX:
            raise CheckError("integer too wide for TLC at %s: %d" % (path, o))
        return
    if isinstance(o, float):
        raise CheckError("float in trace at %s: %r" % (path, o))
    if isinstance(o, dict):
        for k, v in o.items():
            check_ints(v, path + "." + k)
        return
    if isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            check_ints(v, "%s[%d]" % (path, i))
        return
    raise CheckError("type %s in trace at %s" % (type(o), path))


def _sanitize(o):
    """JSON null has no TLA+ value"""
    if o is None:
        return "none"
    if isinstance(o, dict):
        return {k: _sanitize(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_sanitize(v) for v in o]
    return o


class Rejection:
    def __init__(self, tid, pos, state, event):
        self.tid, self.pos, self.state, self.event = tid, pos, state, event


CHUNK = 3000000      # characters of traces one TLC run reads


def validate(module, traces, constants="", cfg_extra="", timeout=800, workers="8", max_rejections=1, args=()):
    """validates in several TLC runs side by side when there is much to read"""
    parts, size = [[]], 0
    for t in traces:
        n = len(json.dumps(t))
        if size + n > CHUNK and parts[-1]:
            parts.append([])
            size = 0
        parts[-1].append(t)
        size += n
    if len(parts) == 1:
        return validate_one(module, traces, constants, cfg_extra, timeout, workers, max_rejections, args)
    n = max(4, len(parts))
    per = -(-len(traces) // n)
    parts = [traces[k:k + per] for k in range(0, len(traces), per)]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda p: validate_one(module, p, constants, cfg_extra, timeout, "2", max_rejections, args), parts))
    res = outs[0][0]
    res.generated, res.distinct = sum(r.generated for r, _ in outs), sum(r.distinct for r, _ in outs)
    return res, [x for _, rj in outs for x in rj][:max_rejections]


def validate_one(module, traces, constants, cfg_extra, timeout, workers, max_rejections, args):
    """Trace validation. specs/<module>.tla reads Traces == ndJsonDeserialize("traces.ndjson") (one record
    {tid, init, ev} per line), has variables tid and l, and deadlocks exactly when the next event of a
    trace is no step of the specification; a finished trace stutters (the module's Done action).

    Returns (TlcResult, [Rejection]); the traces rejected first are found one at a time.
    """
    rejections = []
    live = list(traces)
    check_ints(live)
    res = None
    gen = dist = 0
    while True:
        if not live:
            break
        files = {"traces.ndjson": "".join(json.dumps(_sanitize(t)) + "\n" for t in live)}
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK TRUE\n" + constants + "\n" + cfg_extra + "\n"
        res = tlc(module, cfg, files, timeout=timeout, workers=workers, args=args)
        gen += res.generated
        dist = max(dist, res.distinct)
        if res.ok:
            break
        if "Deadlock reached" in res.out or re.search(r"Invariant \w+ is violated", res.out) or \
                re.search(r"Action property .* is violated", res.out) or \
                re.search(r"Error: Invariant", res.out) or \
                re.search(r"TLC was unable to fingerprint|Evaluating .* failed|The error occurred when TLC was evaluating|unable to", res.out) and "/\\ tid = " in res.out:
            st = res.out.split("Error:", 1)[1]
            tids = re.findall(r"/\\ tid = (\d+)", st)
            ls = re.findall(r"/\\ l = (\d+)", st)
            if not tids:
                raise CheckError("cannot read TLC's error trace:\n" + res.out[-3000:])
            k = int(tids[-1]) - 1
            pos = int(ls[-1])
            tr = live[k]
            last = st[st.rfind("State "):]
            ev = tr["ev"][pos - 1] if pos <= len(tr["ev"]) else None
            inv = re.search(r"(Invariant|Action property) ([\w ,]+) (is|line)", st)
            rej = Rejection(tr, pos, last[:3000], ev)
            rej.reason = inv.group(0) if inv else "no step of the specification explains the event"
            if "Deadlock reached" not in res.out and not inv:
                rej.reason = "the recorded values are outside what the specification can evaluate: " + \
                    " ".join(re.findall(r"(?:Reason:|Error:)\s*(.*?)\n(?:\d+ states|\n|\d+\. )", res.out, re.S))[:400]
            out1 = tlc(module, cfg, {"traces.ndjson": json.dumps(_sanitize(tr)) + "\n"}, timeout=timeout, workers="1", args=args).out
            mis = re.findall(r'<<\s*"MISMATCH".*?>>(?=\n[^ ]|\Z)', out1, re.S)
            if mis:
                rej.reason += " " + " | ".join(re.sub(r"\s+", " ", m)[:1200] for m in mis[-2:])
            rejections.append(rej)
            if len(rejections) >= max_rejections:
                break
            live = live[:k] + live[k + 1:]
            continue
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, res.rc, res.out[-4000:]))
    if res is not None:
        res.generated, res.distinct = gen, dist
    return res, rejections


# ---------------------------------------------------------------- numbers

def to_int(x, scale=1, tol=None):
    """x*scale as an integer; not a number -> NAN sentinel handled by caller; inexact -> None"""
    if x is None or math.isnan(x) or math.isinf(x):
        return None
    y = x * scale
    r = round(y)
    if tol is None:
        return int(r) if y == r else None
    return int(r) if abs(y - r) <= tol else None


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.cov = {}
        self.violations = []
        self.known = []
        self.notes = []
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="chk_%s_" % prop)
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, key, what, data=None):
        """key identifies the failing history/input for the known-findings file"""
        for k in known_findings():
            if k["property"] == self.prop and k["kind"] == "known" and re.fullmatch(k["key"], key):
                self.known.append((key, k["what"]))
                return
        self.violations.append((key, what, data))
        self.log("violation:", key)

    def add_tlc(self, res):
        if res is not None:
            self.states += res.distinct
            self.transitions += res.generated


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


# ---------------------------------------------------------------- running the real code

def build_prefix(ctx, flavour="plain", shims=()):
    import build
    p = os.path.join(ctx.scratch, "acados_" + flavour)
    t = time.time()
    build.build(p, flavour)
    for s in shims:
        build.build_shim(p, s)
    ctx.log("acados built from %s in %.1fs" % (REPO, time.time() - t))
    return p


class JobResult:
    def __init__(self, job, out, rc, log):
        self.job, self.out, self.rc, self.log = job, out, rc, log


def run_driver(ctx, module, jobs, prefix=None, procs=8, timeout=300, env=None):
    """runs drivers/<module>.py once per job; a job whose process fails has out None"""
    import build
    from concurrent.futures import ThreadPoolExecutor
    if prefix is None:
        prefix = os.path.join(ctx.scratch, "light")
        if not os.path.isdir(prefix):
            build.light(prefix)
    e = build.env(prefix)
    e.update(env or {})

    def one(k_job):
        k, job = k_job
        d = tempfile.mkdtemp(prefix="job%d_" % k, dir=ctx.scratch)
        jf, of = os.path.join(d, "job.json"), os.path.join(d, "out.json")
        with open(jf, "w") as f:
            json.dump(job, f)
        try:
            r = subprocess.run([build.PY, "-m", "drivers." + module, jf, of], cwd=VERIF, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            rc, log = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            rc, log = "timeout", (x.stdout or b"").decode(errors="replace")
        out = None
        if os.path.exists(of):
            with open(of) as f:
                out = json.load(f)
        shutil.rmtree(d, ignore_errors=True)
        return JobResult(job, out, rc, log[-6000:])

    with ThreadPoolExecutor(procs) as pool:
        return list(pool.map(one, list(enumerate(jobs))))


def collect(ctx, module, jobs, prefix=None, **kw):
    """outputs of all jobs; a job that fails twice is a violation (the real code raised, crashed or hung)"""
    res = run_driver(ctx, module, jobs, prefix, **kw)
    outs = []
    for r in res:
        if r.out is None:
            again = run_driver(ctx, module, [r.job], prefix, **kw)[0]
            if again.out is None:
                ctx.violation("crash:%s:%s" % (module, r.job.get("name", "")),
                              "the code under test failed on a run it must survive (exit %s):\n%s" % (again.rc, again.log[-1500:]),
                              {"job": r.job, "log": again.log})
                continue
            r = again
        outs.append((r.job, r.out))
    return outs


def validate_and_report(ctx, module, traces, rerun=None, constants="", cfg_extra="", what="trace", **kw):
    """validates, reports each rejected trace as a violation; rerun(tid) -> trace re-records one trace"""
    res, rej = validate(module, traces, constants, cfg_extra, **kw)
    ctx.add_tlc(res)
    ctx.traces += len(traces) - len(rej)
    for r in rej:
        if rerun is not None:
            again = rerun(r.tid)
            if again is not None:
                _, rej2 = validate(module, [again], constants, cfg_extra, **kw)
                if not rej2:
                    ctx.notes.append("rejection of %s did not repeat" % r.tid.get("tid"))
                    continue
        ctx.violation("%s:%s:%s" % (module, r.tid.get("tid"), (r.event or {}).get("op")),
                      "%s %s, event %d: %s\n   event: %s\n   state before: %s" % (
                          what, r.tid.get("tid"), r.pos, r.reason, json.dumps(r.event)[:1500], r.state[:2500]),
                      {"trace": r.tid, "position": r.pos})
    return res
