"""bin/check <ID> quick|thorough          run the check of one property
bin/check replay <file>                   run one recorded case again

A check module (checks/<id>.py) offers
  LEVEL_NOTES, RULE, ASSUME
  jobs(tier) -> list of dict(name, func, variant, over, args, timeout, env)"""
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build  # noqa: E402

SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:"
                    "detect_stack_use_after_return=1:check_initialization_order"
                    "=1:strict_string_checks=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
}


def load(pid):
    path = f"{VERIF}/checks/{pid.lower()}.py"
    # check modules import numpy & co. only inside the worker
    sp = importlib.util.spec_from_file_location("check_" + pid, path)
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    return path, mod


def findings(pid):
    """(pattern, what) of the recorded findings of one property."""
    out = []
    for line in open(f"{VERIF}/known_findings.txt", encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) key=((?:\\.|\S)+) (.*)", line.strip())
        if m and m[1] == pid:
            out.append((m[2], m[3]))
    return out


def classify(rc, err):
    """A stable key for an abnormal end of a worker."""
    if "ERROR: AddressSanitizer" in err:
        kind = re.search(r"AddressSanitizer: ([\w-]+)", err)
        fn = frame(err)
        return f"asan/{kind[1] if kind else 'report'}/{fn}"
    if rc == 99 and re.search(r"==\d+==", err):
        kind = re.search(r"==\d+== (Syscall param|Invalid \w+|[A-Z]\w+)", err)
        return f"memcheck/{kind[1].replace(' ', '-') if kind else 'report'}"
    if "ThreadSanitizer" in err:
        kind = re.search(r"ThreadSanitizer: ([\w -]+)", err)
        return f"tsan/{kind[1].strip().replace(' ', '-')}/{frame(err)}"
    if "runtime error:" in err:
        msg = re.search(r"runtime error: ([^\n]*)", err)[1]
        msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|-?nan|-?inf", "#", msg)[:60]
        return f"ubsan/{re.sub(r'[^A-Za-z#]+', '-', msg)}/{frame(err)}"
    m = re.search(r"Assertion [`'](.*?)' failed", err, re.S)
    if m or "Assertion" in err:
        f = re.search(r"(\w+\.(?:h|cpp|hpp)):\d+", err)
        return f"assert/{f[1] if f else 'unknown'}"
    if rc and rc < 0:
        return f"signal/{signal.Signals(-rc).name}"
    return f"exit/{rc}"


def frame(err):
    for m in re.finditer(r"#\d+ (?:0x\S+ in )?([^\n]*)", err):
        line = m[1]
        if "/code/cpp/src/" in line or "/include/skfmm/" in line:
            return re.sub(r"[^\w]+", "_", line.split("(")[0])[:50]
    m = re.search(r"(/code/cpp/[\w/.-]+\.\w+):\d+", err)
    return os.path.basename(m[1]) if m else "unknown"


class Check:
    def __init__(self, pid, tier, seed, only_job=None, only_case=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.path, self.mod = load(pid)
        self.jobs = self.mod.jobs(tier)
        for j in self.jobs:
            j.setdefault("variant", "plain")
            j.setdefault("over", {})
            j.setdefault("args", {})
            j.setdefault("timeout", 240 if tier == "quick" else 3000)
            j.setdefault("env", {})
        if only_job:
            self.jobs = [j for j in self.jobs if j["name"] == only_job]
            if not self.jobs:
                raise SystemExit(f"no job {only_job}")
        self.only_case = only_case
        self.work = tempfile.mkdtemp(prefix=f"gpr-{pid}-")
        self.viol = []      # dict(key, detail, job, case)
        self.errors = []
        self.skipped = []
        self.results = []

    def build_all(self):
        want = {}
        for j in self.jobs:
            if not j.get("nomodule"):
                want[json.dumps([j["variant"], j["over"]], sort_keys=True)] = 1
                for v in j.get("also", []):
                    want[json.dumps([v, j["over"]], sort_keys=True)] = 1
        keys = list(want)
        par = max(1, 8 // max(1, len(keys)))
        dirs = {}

        def one(k):
            v, o = json.loads(k)
            try:
                return k, build.build(v, jobs=max(par, 3), **o), None
            except build.BuildError as e:
                return k, None, str(e)
        with ThreadPoolExecutor(len(keys) or 1) as ex:
            for k, d, e in ex.map(one, keys):
                dirs[k] = (d, e)
        for j in self.jobs:
            if j.get("nomodule"):
                j["so"] = ""
                continue
            d, e = dirs[json.dumps([j["variant"], j["over"]], sort_keys=True)]
            j["so"] = d
            # further builds that the job compares with
            j["alsodirs"] = [dirs[json.dumps([v, j["over"]], sort_keys=True)][0]
                             for v in j.get("also", [])]
            if d is not None and None in j["alsodirs"]:
                d = j["so"] = None
                e = "a variant does not build"
            if d is None:
                if j["over"]:
                    self.skipped.append((j["name"], e[-300:]))
                else:
                    self.errors.append(f"build failed: {e}")
        if self.skipped and len(self.skipped) == len(self.jobs):
            self.errors.append("no configuration could be built: "
                               + self.skipped[0][1])

    def run_job(self, j, attempt=0):
        if j["so"] is None:
            return
        base = f"{self.work}/{j['name'].replace('/', '_')}"
        spec = dict(prop=self.pid, name=j["name"], func=j["func"],
                    args=j["args"], seed=self.seed, tier=self.tier,
                    only=self.only_case, budget=j.get("budget"),
                    nomodule=bool(j.get("nomodule")))
        json.dump(spec, open(base + ".job", "w"))
        res = base + ".res"
        if os.path.exists(res):
            os.remove(res)
        env = dict(os.environ)
        env.update(SAN)
        env.update(GPRMON_SO=j["so"], GPR_REPO=build.REPO,
                   PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
                   OMP_NUM_THREADS="1", MPLCONFIGDIR=self.work,
                   PYTHONHASHSEED="0", VERIF_SEED=str(self.seed))
        pre = build.preload(j["variant"])
        if pre:
            env["LD_PRELOAD"] = pre
        if j["variant"] == "asan":
            env["PYTHONMALLOC"] = "malloc"
        env.update(j["env"])
        env["GPRMON_ALSO"] = ":".join(j.get("alsodirs", []))
        cmd = j.get("wrap", []) + [build.PY, f"{HERE}/worker.py", self.path,
                                   base + ".job", res]
        if j["variant"] == "tsan":
            cmd = ["setarch", "-R"] + cmd if shutil.which("setarch") else cmd
        t0 = time.time()
        out = open(base + ".out", "w")
        errf = open(base + ".err", "w")
        p = subprocess.Popen(cmd, env=env, cwd=self.work, stdout=out,
                             stderr=errf, start_new_session=True)
        try:
            rc = p.wait(timeout=j["timeout"])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        out.close()
        errf.close()
        err = open(base + ".err", errors="replace").read()
        case = None
        if os.path.exists(res + ".journal"):
            try:
                jj = json.load(open(res + ".journal"))
                case = [jj["tag"], jj["index"]]
            except ValueError:
                pass
        if os.path.exists(res):
            r = json.load(open(res))
            if r["status"] == "error":
                # an exception out of the code under test, inside a case, is
                # an observation; one outside of every case is ours
                if r["cur"] is not None:
                    et = r["error"].strip().splitlines()[-1].split(":")[0]
                    r["violations"].append(dict(
                        key=f"exception/{et}/{r['cur'][0]}",
                        detail=r["error"][-1500:], case=r["cur"]))
                else:
                    self.errors.append(f"{j['name']}: {r['error']}")
            for v in r["violations"]:
                v["job"] = j["name"]
                self.viol.append(v)
            self.results.append(r)
            if hasattr(self.mod, "after"):
                # e.g. sanitizer logs
                for v in self.mod.after(j, err) or []:
                    v["job"] = j["name"]
                    self.viol.append(v)
            return
        if rc is None:
            if attempt == 0:
                return self.run_job(j, 1)
            # a hang is inconclusive for the properties, except that the
            # module must not stop answering: only reported with a case
            if case is None:
                self.errors.append(f"{j['name']}: timed out before any case")
            else:
                self.viol.append(dict(
                    key=f"hang/{case[0]}", case=case, job=j["name"],
                    detail=f"no answer within {j['timeout']} s, twice"))
            return
        if case is None:
            self.errors.append(f"{j['name']}: worker ended with {rc}: "
                               f"{err[-1500:]}")
            return
        self.viol.append(dict(key=classify(rc, err), case=case,
                              job=j["name"],
                              detail=f"ended with {rc}: {err[-3000:]}"))

    def run(self):
        t0 = time.time()
        self.build_all()
        self.t_build = time.time() - t0
        par = getattr(self.mod, "PARALLEL", 8)
        if not self.errors:
            with ThreadPoolExecutor(par) as ex:
                list(ex.map(self.run_job, self.jobs))
        self.wall = time.time() - t0

    def report(self):
        known = findings(self.pid)
        new, hit = [], {}
        for v in self.viol:
            full = f"{v['job']}:{v['key']}"
            for pat, what in known:
                if re.fullmatch(pat, full) or re.fullmatch(pat, v["key"]):
                    hit[pat] = hit.get(pat, 0) + 1
                    break
            else:
                new.append(v)
        outdir = f"{VERIF}/out/{self.pid}"
        os.makedirs(outdir, exist_ok=True)
        paths = []
        for k, v in enumerate(new[:20]):
            f = f"{outdir}/violation-{k}.json"
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                           **v), open(f, "w"), indent=1, ensure_ascii=False)
            paths.append(f)
            print(f"-- {v['job']}: {v['key']} case={v['case']}\n"
                  f"   {v['detail'][:600]}")
        for pat, what in known:
            print(f"KNOWN-FINDING: property={self.pid} {what}"
                  + (f" [seen {hit[pat]}x in this run]" if pat in hit else
                     " [not exercised in this run]"))
        for e in list(dict.fromkeys(self.errors))[:4]:
            print("ERROR:", e[:3000])
        for n, e in self.skipped:
            print(f"skipped {n}: this configuration does not build: {e[-200:]}")
        self.evidence(len(new), known, hit)
        if new:
            for f in paths[:1]:
                print(f"VIOLATION property={self.pid} replay={f}")
            return 1
        if self.errors:
            return 2
        tot = sum(sum(r["oracles"].values()) for r in self.results)
        print(f"{self.pid} {self.tier}: held on "
              f"{sum(r['evals'] for r in self.results)} cases, "
              f"{tot} oracle decisions, {self.wall:.0f} s "
              f"(build {self.t_build:.0f} s)")
        if tot == 0:
            print("ERROR: nothing was observed")
            return 2
        return 0

    def evidence(self, nviol, known, hit):
        orc, mar, cnt, smp, nt = {}, {}, {}, [], set()
        for r in self.results:
            for k, n in r["oracles"].items():
                orc[k] = orc.get(k, 0) + n
            for k, x in r["margins"].items():
                mar[k] = max(mar.get(k, 0), x)
            for k, x in r["counts"].items():
                cnt[k] = max(cnt[k], x) if isinstance(x, float) and k in cnt \
                    else cnt.get(k, 0) + x
            smp += [dict(job=r["job"], **s) for s in r["samples"][:2]]
            nt |= {r["job"].split("@")[0] + x for x in r["nontrivial"]}
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed,
            level="exploration",
            coverage=dict(
                evaluations=sum(r["evals"] for r in self.results),
                distinct_nontrivial=len(nt),
                rule=self.mod.RULE,
                samples=smp[:12] or ["none"],
                oracle_decisions=orc,
                worst_error_over_tolerance={k: float(f"{x:.3g}") if x < 1e300
                                            else 1e300
                                            for k, x in mar.items()},
                observed=cnt,
                jobs={r["job"]: dict(cases=r["evals"],
                                     seconds=round(r["wall"], 1))
                      for r in self.results},
                configurations_skipped=[n for n, _ in self.skipped],
                known_findings_seen={w[:120]: hit.get(p, 0)
                                     for p, w in known},
                explanation=(self.mod.__doc__ or "").strip()),
            assumptions=getattr(self.mod, "ASSUME", []),
            wall_s=round(self.wall, 1), violations=nviol)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        tmp = f"{VERIF}/evidence/.{self.pid}.tmp"
        json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
        os.replace(tmp, f"{VERIF}/evidence/{self.pid}.json")


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[0] == "replay":
        v = json.load(open(a[1]))
        c = Check(v["property"], v["tier"], v["seed"], v["job"],
                  v["case"])
    else:
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        c = Check(a[0], tier, seed, a[2] if len(a) > 2 else None)
    try:
        c.run()
        rc = c.report()
    finally:
        if not os.environ.get("GPRMON_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
        else:
            print("work:", c.work)
    sys.exit(rc)


if __name__ == "__main__":
    main()
