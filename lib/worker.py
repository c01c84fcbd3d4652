"""Runs one job of one check in its own process.
usage: worker.py check.py job.json result.json"""
import importlib.util
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    # do not outlive the runner
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    path, jobf, resf = sys.argv[1:4]
    job = json.load(open(jobf))
    if not job.get("nomodule"):
        import gm  # noqa: F401
    sys.stdin = None
    from mon import Mon
    sp = importlib.util.spec_from_file_location("check", path)
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    m = Mon(job["prop"], job["name"], job["seed"], job["tier"],
            resf + ".journal", job.get("only"))
    m.budget = job.get("budget") or m.budget
    status = "ok"
    err = ""
    try:
        getattr(mod, job["func"])(m, **job.get("args", {}))
    except BaseException as e:  # a harness error unless it names a case
        status = "error"
        err = "".join(traceback.format_exception(e))[-4000:]
    r = m.result()
    r["status"] = status
    r["error"] = err
    r["cur"] = m.cur
    tmp = resf + ".tmp"
    json.dump(r, open(tmp, "w"))
    os.replace(tmp, resf)
    sys.stdout.flush()
    os._exit(0)


main()
