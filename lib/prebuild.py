"""Builds every variant that the quick checks use.  Only saves them time: each
check builds what is missing or out of date by itself."""
import json
import sys
import glob
import os
import time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build  # noqa: E402
import runner  # noqa: E402

want = {}
for f in sorted(glob.glob(f"{HERE}/../checks/c*.py")):
    for j in runner.load(os.path.basename(f)[:-3].upper())[1].jobs("quick"):
        if not j.get("nomodule"):
            for v in [j.get("variant", "plain"), *j.get("also", [])]:
                k = json.dumps([v, j.get("over", {})], sort_keys=True)
                want[k] = want.get(k, 0) + 1
t0 = time.time()


def one(k):
    if time.time() - t0 > 1300:
        return
    v, o = json.loads(k)
    try:
        build.build(v, jobs=4, **o)
        print(f"[{time.time() - t0:.0f} s] {k}", flush=True)
    except Exception as e:      # the checks will report it
        print("not built:", k, str(e)[-300:])


with ThreadPoolExecutor(3) as ex:
    list(ex.map(one, sorted(want, key=lambda k: -want[k])))
