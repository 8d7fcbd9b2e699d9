"""
Replays scenarios into the real code:  driver.py <module> <in.json> <out.ndjson>

Every call of the code under test is guarded; what it did is logged, never raised.
"""

import importlib
import json
import os
import signal
import sys
import traceback
import types
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = Path(__file__).resolve().parent
sys.path.insert(0, str(HARNESS))
sys.path.insert(0, REPO)


from obs import Hang  # noqa: E402


def _alarm(*a):
    raise Hang()


def main():
    modname, fin, fout = sys.argv[1:4]
    if not os.path.exists(os.path.join(REPO, "gridded", "_version.py")):
        m = types.ModuleType("gridded._version")
        m.__version__ = m.version = "0"
        sys.modules["gridded._version"] = m
    try:
        import gridded

        assert os.path.realpath(gridded.__file__).startswith(os.path.realpath(REPO) + "/"), gridded.__file__
    except Exception:
        traceback.print_exc()
        print("VERIF-IMPORT-FAILED", file=sys.stderr)
        return 96
    drv = importlib.import_module("drivers." + modname)
    job = json.loads(Path(fin).read_text())
    signal.signal(signal.SIGALRM, _alarm)
    with open(fout, "w") as out:
        for i, scn in enumerate(job["scns"]):
            sid = job["base"] + i
            out.write(json.dumps({"ev": "@begin", "sid": sid}) + "\n")
            out.flush()
            recs = []

            def log(ev, _sid=sid, _recs=recs, **kw):
                _recs.append(dict(ev=ev, sid=_sid, **kw))

            signal.alarm(int(getattr(drv, "ALARM", 40)))
            try:
                drv.run(scn, log)
            except Hang:
                recs.append({"ev": "@hang", "sid": sid, "err": "no answer within the time limit"})
            except Exception:
                # a failure outside a guarded call: the driver itself is wrong
                signal.alarm(0)
                traceback.print_exc()
                print("scenario:", json.dumps(scn)[:3000], file=sys.stderr)
                return 97
            finally:
                signal.alarm(0)
            for r in recs:
                out.write(json.dumps(r) + "\n")
            out.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
