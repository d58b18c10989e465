"""The native extension: building it, and running workloads on it in processes that may crash.

A stage is a fresh process (own environment: which build is imported, allocator, sanitizer) that works off a list of
jobs in forked children; a job is one worker's stream of one check's workloads.  A child that dies is a result, too.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
RUST = os.path.join(core.ROOT, "rust")
CFG = [x for v in (7, 8, 9, 10, 11, 12) for x in ("--cfg", f"Py_3_{v}")]
VARIANTS = {
    # as it's built for release: arithmetic wraps
    "release": (["-C", "opt-level=3"], "stable"),
    # overflows, out of range shifts, failing debug assertions and (debug) unsafe preconditions abort
    "checked": (["-O", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "panic=abort", "-C", "debuginfo=1"], "stable"),
    "asan": (["-O", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "panic=abort", "-C", "debuginfo=1",
              "-Zsanitizer=address", "-Zexternal-clangrt"], "nightly"),
}


class NoBuild(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _tree():
    """the files the extension package consists of"""
    out = []
    for d, ext in ((os.path.join(REPO, "src"), ".rs"), (os.path.join(REPO, "pysrc", "whenever"), (".py", ".pyi", ".typed"))):
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith(ext)]
    return sorted(out)


def build(variant):
    """-> directory to import the package, with its extension, from"""
    flags, chan = VARIANTS[variant]
    h = hashlib.blake2b(digest_size=8)
    for p in _tree() + [os.path.join(RUST, f) for f in sorted(os.listdir(RUST))]:
        h.update(p.encode() + b"\0" + _read(p) + b"\0")
    h.update(repr(flags).encode())
    base = os.path.join(core.OUT, "ext")
    dest = os.path.join(base, f"{variant}-{h.hexdigest()}")
    if os.path.exists(os.path.join(dest, "whenever", "_whenever.so")):
        return dest
    os.makedirs(base, exist_ok=True)
    for d in os.listdir(base):
        if d.startswith(variant + "-"):
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=base)
    try:
        pk = os.path.join(tmp, "whenever")
        os.makedirs(pk)
        for f in os.listdir(os.path.join(REPO, "pysrc", "whenever")):
            if f.endswith((".py", ".pyi", ".typed")):
                shutil.copy(os.path.join(REPO, "pysrc", "whenever", f), pk)
        rustc = ["rustc", "+nightly"] if chan == "nightly" else ["rustc"]
        lib = os.path.join(tmp, "libpyo3_ffi.rlib")
        for cmd in ([*rustc, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "pyo3_ffi", *CFG, *flags, "-A", "warnings",
                     os.path.join(RUST, "pyo3_ffi.rs"), "-o", lib],
                    [*rustc, "--edition", "2021", "--crate-type", "cdylib", "--crate-name", "_whenever", *CFG, *flags, "-A", "warnings",
                     "--extern", "pyo3_ffi=" + lib, os.path.join(REPO, "src", "lib.rs"), "-o", os.path.join(pk, "_whenever.so")]):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp, timeout=600)
            if r.returncode:
                raise NoBuild(r.stderr[-3000:])
        os.remove(lib)
        os.rename(tmp, dest)
    except (OSError, subprocess.SubprocessError) as e:
        raise NoBuild(repr(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


# ------------------------------------------------------------------ stages
ENV_DROP = ("PYTHONMALLOC", "LD_PRELOAD", "ASAN_OPTIONS", "VERIF_SRC")


def stage(src, jobs, deadline, env=(), par=8, prop="C32", tier="quick"):
    """run the jobs in a fresh process; -> list of dicts (job, result or None, status, stderr)"""
    tmp = tempfile.mkdtemp(prefix="verif-stage-")
    try:
        inp, out = os.path.join(tmp, "in"), os.path.join(tmp, "out")
        with open(inp, "wb") as f:
            pickle.dump({"jobs": jobs, "left": deadline - time.monotonic(), "par": par, "prop": prop, "tier": tier, "tmp": tmp}, f)
        e = {k: v for k, v in os.environ.items() if k not in ENV_DROP}
        e.update(VERIF_SRC=src, VERIF_RUST=os.path.join(REPO, "src"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONFAULTHANDLER="1",
                 RUST_BACKTRACE="1", **dict(env))
        r = subprocess.run([sys.executable, "-B", "-m", "mon.ext", inp, out], cwd=core.ROOT, env=e, stdin=subprocess.DEVNULL)
        try:
            with open(out, "rb") as f:
                return pickle.load(f)
        except OSError:
            return [{"job": j, "result": None, "status": r.returncode, "stderr": "the stage gave no answer", "case": None} for j in jobs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _child(job, q, mm, deadline, w, err):
    os.dup2(err, 2)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    if job.get("trace"):
        def trace(t):
            b = t.encode("utf-8", "replace")[:4000]
            mm[16:20] = struct.pack("<I", len(b))
            mm[20:20 + len(b)] = b
        core.TRACE = trace
    mod = importlib.import_module("mon.checks." + job["mod"])

    def note(i):
        mm[0:8] = struct.pack("<q", i)
    core.worker(job.get("as") or q["prop"], mod, job["seed"], q["tier"], job["w"], job["n"], deadline, w, note)


def main(inp, out):
    with open(inp, "rb") as f:
        q = pickle.load(f)
    deadline = time.monotonic() + q["left"]
    todo = list(q["jobs"])[::-1]
    live, done = {}, []
    p = select.poll()
    while todo or live:
        while todo and len(live) < q["par"]:
            job = todo.pop()
            # a job may take its share, and only what is left
            cap = min(deadline, time.monotonic() + job.get("cap", 1e9))
            if cap <= time.monotonic():
                done.append({"job": job, "result": {}, "status": 0, "stderr": "", "case": None})
                continue
            mm = mmap.mmap(-1, 8192)
            mm[0:8] = struct.pack("<q", -1)
            err = tempfile.TemporaryFile(dir=q["tmp"])
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(r)
                    for fd in live:
                        os.close(fd)
                    _child(job, q, mm, cap, w, err.fileno())
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            p.register(r, select.POLLIN | select.POLLHUP)
            live[r] = (job, pid, mm, err, bytearray(), cap + 100)
        for fd, _ in p.poll(2000):
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][4].extend(b)
                continue
            _end(fd, live, done, p)
        for fd in [fd for fd, v in live.items() if time.monotonic() > v[5]]:
            os.kill(live[fd][1], signal.SIGKILL)
            _end(fd, live, done, p, True)
    with open(out, "wb") as f:
        pickle.dump(done, f)


def _end(fd, live, done, p, overdue=False):
    job, pid, mm, err, buf, _ = live.pop(fd)
    p.unregister(fd)
    os.close(fd)
    st = os.waitpid(pid, 0)[1]
    try:
        res = pickle.loads(bytes(buf)) if buf else None
    except Exception:
        res = None
    err.seek(0)
    n = struct.unpack("<I", mm[16:20])[0]
    done.append({"job": job, "result": res, "status": "overdue" if overdue else os.waitstatus_to_exitcode(st),
                 "stderr": err.read().decode("utf-8", "replace")[-6000:], "case": struct.unpack("<q", mm[0:8])[0],
                 "call": bytes(mm[20:20 + n]).decode("utf-8", "replace") if n else None})
    mm.close()
    err.close()


# ------------------------------------------------------------------ verdict and evidence
class Tally:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, time.time()
        self.viol, self.errors = [], []
        self.events, self.feats, self.samples = {}, {}, []
        self.distinct, self.over = set(), 0
        self.cases = self.specified = self.skipped = self.nospec = self.unbuildable = 0
        self.jobs = 0
        self.per = {}
        self.notes = {}

    def add(self, label, done, rerun=None):
        """label: which build; rerun: job -> its outcome with the calls traced"""
        for d in done:
            job, r = d["job"], d["result"]
            if r == {}:
                continue
            self.jobs += 1
            if r is None:
                self.lost(label, d, rerun)
                continue
            if r["error"]:
                self.errors.append(f"{label} {job['mod']}: {r['error']}")
            for v in r["violations"]:
                v.update(property=self.prop, tier=self.tier, build=label, job=job)
                self.viol.append(v)
            for k, v in r["events"].items():
                self.events[k] = self.events.get(k, 0) + v
            for k, v in r["feats"].items():
                k = f"{job['mod']}: {k}"
                self.feats[k] = self.feats.get(k, 0) + v
            k = f"{label}, workloads of {job['mod'].upper()}"
            c = self.per.setdefault(k, [0, 0])
            c[0] += r["cases"]
            c[1] += sum(r["events"].values())
            self.samples += r["samples"][:1]
            if len(self.distinct) < 3_000_000:
                self.distinct |= r["distinct"]
            else:
                self.over += len(r["distinct"])
            self.cases += r["cases"]
            self.specified += r["specified"]
            self.skipped += r["skipped"]
            self.nospec += r["n_spec_errors"]
            self.unbuildable += r["builds_failed"]

    def lost(self, label, d, rerun):
        job, st = d["job"], d["status"]
        if st == "overdue" or st == -signal.SIGKILL or (isinstance(st, int) and 0 <= st <= 3 and st != 1):
            # killed from outside or for taking too long, or an error of the harness: no verdict
            self.errors.append(f"{label} {job['mod']} worker {job['w']}: {st} {d['stderr'][-1500:]}")
            return
        call = None
        if rerun:
            d2 = rerun(dict(job, trace=True, n=(d["case"] or 0) + 1))
            call = d2.get("call") if d2.get("result") is None else None
        self.viol.append({"mech": "the interpreter crashes", "detail": {
            "call": call or "(not traced)", "exit status": st, "stderr": d["stderr"][-2500:]}, "seed": job["seed"], "worker": job["w"],
            "case": d["case"], "tier": self.tier, "property": self.prop, "build": label, "job": job})

    def finish(self, rule, assumes, extra):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.cases, "distinct_nontrivial": len(self.distinct), "rule": rule,
                "samples": self.samples[:12],
                "observed_events": dict(sorted(self.events.items())), "events_total": sum(self.events.values()),
                "features": dict(sorted(self.feats.items())),
                "cases_and_events_by_build_and_workload": {k: {"cases": a, "events": b} for k, (a, b) in sorted(self.per.items())},
                "judged_by_specification": self.specified, "outside_specification": self.skipped,
                "specification_gave_no_answer": self.nospec, "unbuildable_inputs": self.unbuildable,
                "distinct_counter_saturated_by": self.over, "processes": self.jobs, **extra},
            "assumptions": assumes,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(core.ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=repr)
        for k in core.load_known(self.prop):
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.viol:
            os.makedirs(os.path.join(core.OUT, "replay"), exist_ok=True)
            seen = set()
            for v in self.viol:
                k = (v["mech"], v["build"]) if v["mech"] != "the interpreter crashes" else (v["mech"], v["build"], v["job"]["mod"])
                if k in seen or len(seen) > 12:
                    continue
                seen.add(k)
                h = hashlib.blake2b(json.dumps(v, sort_keys=True, default=repr).encode(), digest_size=6).hexdigest()
                p = os.path.join(core.OUT, "replay", f"{self.prop}-{h}.json")
                with open(p, "w") as f:
                    json.dump(v, f, indent=1, default=repr)
                print(json.dumps(v, default=repr)[:1800])
                print(f"VIOLATION property={self.prop} replay={p}")
            return 1
        for e in self.errors[:4]:
            print(e, file=sys.stderr)
        if self.errors:
            print(f"{len(self.errors)} worker(s) gave no answer", file=sys.stderr)
            return 2
        if not self.cases or not self.distinct:
            print("no case was judged", file=sys.stderr)
            return 2
        print(f"{self.prop} {self.tier} seed={self.seed}: held on {self.cases} cases, {sum(self.events.values())} observed events, "
              f"{len(self.distinct)} distinct, {ev['wall_s']} s")
        return 0


if __name__ == "__main__":
    main(*sys.argv[1:])
