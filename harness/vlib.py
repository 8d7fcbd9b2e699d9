"""
Common machinery of the checks.

A check = (1) TLC model-checks the specification of the property and emits test behaviours,
          (2) a driver replays those (and randomly generated) behaviours into the real code and records
              what the code did, one JSON line per call,
          (3) a trace specification, again run by TLC, judges every recorded line.
"""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The checking machinery itself failed: no verdict."""


def scratch_dir(prefix="vchk_"):
    return Path(tempfile.mkdtemp(prefix=prefix))


# --------------------------------------------------------------------------- TLC

_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(module, cfg=None, env=None, scratch=None, workers=1, extra=(), heap="2g", timeout=800, deadlock=False):
    """
    Run TLC on spec/<module>.tla with spec/<cfg>.cfg; returns dict(ok, out, states, distinct, emitted).
    Emitted values are strings printed with PrintT(ToJson(..)).
    """
    scratch = Path(scratch)
    meta = tempfile.mkdtemp(prefix="meta_", dir=scratch)
    cmd = [
        "java",
        f"-Xmx{heap}",
        "-Xss16m",
        "-XX:+UseParallelGC",
        "-XX:ParallelGCThreads=2",
        "-XX:TieredStopAtLevel=4",
        f"-Djava.io.tmpdir={scratch}",
        "-cp",
        JAVA_CP,
        "tlc2.TLC",
        "-metadir",
        meta,
        "-workers",
        str(workers),
        "-noGenerateSpecTE",
    ]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += ["-config", str(SPEC / f"{cfg or module}.cfg"), *extra, str(SPEC / f"{module}.tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout
        )
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}/{cfg}") from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = None
    for m in _STATS.finditer(out):
        pass
    return dict(
        ok=p.returncode == 0,
        rc=p.returncode,
        out=out,
        states=int(m.group(1)) if m else 0,
        distinct=int(m.group(2)) if m else 0,
        wall=time.time() - t0,
    )


def gist(out, n=1500):
    """the telling part of TLC's output"""
    keep = [
        ln
        for ln in out.splitlines()
        if not ln.startswith(("Parsing file", "Semantic processing", "Linting", '"', "***")) and ln.strip()
    ]
    i = next((k for k, ln in enumerate(keep) if "rror" in ln), max(0, len(keep) - 30))
    return "\n".join(keep[i:])[:n]


def emitted(out):
    """Decode the JSON values a specification printed with PrintT(ToJson(value))."""
    vals = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                vals.append(json.loads(json.loads(line)))
            except ValueError:
                continue
    return vals


def model_check(module, cfg=None, scratch=None, env=None, **kw):
    """Model-check one configuration of the specification; an error in it is a failure of the machinery."""
    r = run_tlc(module, cfg, scratch=scratch, env=env, **kw)
    if not r["ok"]:
        raise MachineryError(f"TLC rejects the specification {module}/{cfg}:\n" + gist(r["out"]))
    r["cases"] = emitted(r["out"])
    return r


# where the plane of the model lies in the world: [x, y, power of two of the scale]
FAR = [[-122, 47, -14], [500000, 4649776, 0], [50000000, 20000000, 0], [179, -89, -17], [-300000, 0, 7]]


def world(rng, p=0.25):
    return rng.choice(FAR) if rng.random() < p else None


# --------------------------------------------------------------------------- driving the real code


def driver_env(scratch):
    e = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "LANG") or k.startswith("LC_")
    }
    e.update(
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TZ="UTC",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=str(scratch / "pyc"),
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=str(scratch / "mpl"),
        PROJ_NETWORK="OFF",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        VERIF_REPO=str(REPO),
        VERIF_SCRATCH=str(scratch),
    )
    return e


def _drive_chunk(mod, scns, base, scratch, idx, timeout):
    """Replay scenarios (list) in one process; on a crash or hang, note it and go on with the rest."""
    lines = []
    pos = 0
    rnd = 0
    while pos < len(scns):
        rnd += 1
        wd = scratch / f"drv_{idx}_{rnd}"
        wd.mkdir(parents=True, exist_ok=True)
        fin = wd / "in.json"
        fout = wd / "out.ndjson"
        fin.write_text(json.dumps({"base": base + pos, "scns": scns[pos:]}))
        errf = wd / "err.txt"
        hung = False
        with open(errf, "w") as ef:
            try:
                p = subprocess.run(
                    [PY, "-W", "ignore", str(HARNESS / "driver.py"), mod, str(fin), str(fout)],
                    cwd=wd,
                    env=driver_env(scratch),
                    stdout=ef,
                    stderr=ef,
                    timeout=timeout,
                )
                rc = p.returncode
            except subprocess.TimeoutExpired:
                hung = True
                rc = -1
        got = []
        if fout.exists():
            for ln in fout.read_text().splitlines():
                try:
                    got.append(json.loads(ln))
                except ValueError:
                    pass
        done = [g for g in got if g.get("ev") != "@begin"]
        begun = [g["sid"] for g in got if g.get("ev") == "@begin"]
        lines += done
        if rc == 0:
            break
        if not begun:
            # nothing could even start: the package does not import, or the driver is broken
            txt = errf.read_text()[-3000:]
            if "VERIF-IMPORT-FAILED" in txt:
                lines.append({"ev": "@import", "sid": base + pos, "err": txt[-600:]})
                break
            raise MachineryError(f"driver {mod} failed:\n{txt}")
        if rc == 97:
            raise MachineryError(f"driver {mod} failed:\n{errf.read_text()[-3000:]}")
        last = begun[-1]
        lines = [x for x in lines if x["sid"] != last]
        lines.append({"ev": "@hang" if hung else "@crash", "sid": last, "rc": rc, "err": errf.read_text()[-400:]})
        pos = last - base + 1
        shutil.rmtree(wd, ignore_errors=True)
    return lines


def drive(mod, scns, scratch, timeout=240, chunks=NCPU):
    """Replay the scenarios into the code under /repo, in parallel processes; returns the recorded lines."""
    n = len(scns)
    if n == 0:
        return []
    k = max(1, min(chunks, (n + 7) // 8))
    size = (n + k - 1) // k
    jobs = [(i, scns[i * size : (i + 1) * size], i * size) for i in range(k) if scns[i * size : (i + 1) * size]]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: _drive_chunk(mod, j[1], j[2], scratch, j[0], timeout), jobs))
    return [x for r in res for x in r]


# --------------------------------------------------------------------------- judging the traces


def validate(trace_module, lines, scratch, cfg=None, chunks=NCPU, heap="2g", timeout=800, env=None):
    """
    Judge recorded lines with the trace specification.  Returns (mismatches, states):
    mismatches = [(line, [clauses])].
    Lines of one scenario stay together and in order.
    """
    if not lines:
        return [], 0
    groups = []
    cur = None
    for ln in lines:
        if cur is None or ln["sid"] != cur[-1]["sid"]:
            cur = []
            groups.append(cur)
        cur.append(ln)
    k = max(1, min(chunks, (len(lines) + 149) // 150))
    per = (len(lines) + k - 1) // k
    parts = []
    acc = []
    for g in groups:
        acc += g
        if len(acc) >= per:
            parts.append(acc)
            acc = []
    if acc:
        parts.append(acc)

    def judge(i, part):
        """(mismatches, states, number of lines judged); a line without a value in the specification is a mismatch"""
        f = scratch / f"trace_{trace_module}_{i}.ndjson"
        f.write_text("".join(json.dumps(x) + "\n" for x in part))
        e = {"TRACE_FILE": str(f)}
        e.update(env or {})
        r = run_tlc(trace_module, cfg, env=e, scratch=scratch, heap=heap, timeout=timeout)
        mm = [(part[v[1] - 1], sorted(v[2])) for v in emitted(r["out"]) if v and v[0] == "MISMATCH"]
        if len(mm) != r["out"].count("MISMATCH"):
            raise MachineryError("could not read the verdict of " + trace_module)
        m = re.search(r'<<"TRACE-DONE", (\d+)>>', r["out"])
        if r["ok"] and m and int(m.group(1)) == len(part):
            return mm, r["distinct"], len(part)
        at = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", r["out"].partition("The behavior up to this point is")[2], re.M)
        if at and int(at[-1]) < len(part):
            k = int(at[-1])
            return mm + [(part[k], ["what was recorded has no value in the specification"])], k, k
        keep = Path(tempfile.gettempdir()) / f"vchk_failed_{trace_module}.ndjson"
        try:
            shutil.copy(f, keep)
        except OSError:
            pass
        raise MachineryError(f"trace specification {trace_module} did not judge the trace ({keep}):\n" + gist(r["out"]))

    def one(i_part):
        i, part = i_part
        mm, states = [], 0
        for _ in range(12):
            new, n, k = judge(i, part)
            mm += new
            states += n
            if k == len(part):
                break
            # the scenario of the line is given up, the others are judged
            part = [x for x in part[k:] if x["sid"] != part[k]["sid"]]
            if not part:
                break
        return mm, states

    with ThreadPoolExecutor(max(1, NCPU // 1)) as ex:
        res = list(ex.map(one, enumerate(parts)))
    return [m for r in res for m in r[0]], sum(r[1] for r in res)


# --------------------------------------------------------------------------- a whole check


class Check:
    """
    One property.  Subclasses (in harness/props/<id>.py) give

      models      [(module, cfg, kind)]: configurations TLC model-checks; kind labels the cases it emits
      driver      name of the driver module (harness/drivers/<name>.py)
      trace       trace specification module
      scenarios(cases, rng, tier) -> list of scenarios (JSON-able) to replay
      nontrivial(line) -> bool
    """

    id = None
    level = "model_checking"
    models = ()
    driver = None
    trace = None
    timeout = 240
    rule = ""
    assumptions = ()
    model_workers = 4

    def scenarios(self, cases, rng, tier):
        raise NotImplementedError

    def nontrivial(self, line):
        return True

    def known(self):
        """Known findings of this property: list of dict(match=.., text=..) from known_findings.json."""
        f = VERIF / "known_findings.json"
        if not f.exists():
            return []
        return [k for k in json.loads(f.read_text()).get("known", []) if k["property"] == self.id]

    def is_known(self, line, clauses):
        for k in self.known():
            w = k["where"]
            if all(line.get(a) == b for a, b in w.get("line", {}).items()) and set(clauses) <= set(w["clauses"]):
                return k
        return None

    def run(self, tier, seed):
        t0 = time.time()
        scratch = scratch_dir(f"vchk_{self.id}_")
        try:
            return self._run(tier, seed, scratch, t0)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def run_models(self, tier, scratch):
        cases = {}
        stats = []
        jobs = list(self.models_for(tier))

        def one(j):
            module, cfg, kind = j[:3]
            kw = j[3] if len(j) > 3 else {}
            r = model_check(module, cfg, scratch=scratch, **{"workers": 1, **kw})
            return kind, module, cfg, r

        with ThreadPoolExecutor(4) as ex:
            for kind, module, cfg, r in ex.map(one, jobs):
                cases.setdefault(kind, []).extend(r["cases"])
                stats.append(
                    dict(
                        module=module,
                        cfg=cfg or module,
                        states=r["distinct"],
                        transitions=r["states"],
                        cases_emitted=len(r["cases"]),
                        wall_s=round(r["wall"], 1),
                    )
                )
        return cases, stats

    def models_for(self, tier):
        return self.models

    def _run(self, tier, seed, scratch, t0):
        rng = random.Random(f"{self.id}/{seed}")
        cases, mstats = self.run_models(tier, scratch)
        scns = self.scenarios(cases, rng, tier)
        lines = drive(self.driver, scns, scratch, timeout=self.timeout)
        fatal = [x for x in lines if x["ev"].startswith("@")]
        judged = [x for x in lines if not x["ev"].startswith("@")]
        judged = self.postprocess(judged, scratch)
        mism, tstates = validate(self.trace, judged, scratch)
        bad = [(x, ["the call crashed, hung or the package did not import"]) for x in fatal] + mism
        new, known = [], {}
        for line, clauses in bad:
            k = self.is_known(line, clauses)
            if k:
                known[k["text"]] = k
            else:
                new.append((line, clauses))
        # scenarios whose every call conformed
        badsids = {x["sid"] for x, _ in bad}
        nontriv = {json.dumps({k: v for k, v in x.items() if k not in ("sid",)}, sort_keys=True) for x in judged if self.nontrivial(x)}
        kinds = {}
        for x in judged:
            kinds[x["ev"]] = kinds.get(x["ev"], 0) + 1
        outs = {}
        for x in judged:
            o = x.get("out", "ok")
            outs[o] = outs.get(o, 0) + 1
        samples = []
        seen = set()
        for x in judged:
            if x["ev"] not in seen and len(samples) < 6:
                seen.add(x["ev"])
                s = json.dumps(x)
                samples.append(s if len(s) < 900 else s[:900] + "...")
        ev = dict(
            property=self.id,
            tier=tier,
            seed=seed,
            level=self.level,
            coverage=dict(
                states=sum(s["states"] for s in mstats) + tstates,
                transitions=sum(s["transitions"] for s in mstats),
                traces_validated_against_impl=len({x["sid"] for x in judged} - badsids),
                samples=samples,
                evaluations=len(judged),
                distinct_nontrivial=len(nontriv),
                rule=self.rule,
                models=mstats,
                trace_spec=self.trace,
                trace_states=tstates,
                scenarios=len(scns),
                scenarios_from_tlc=sum(1 for s in scns if s.get("src") == "tlc"),
                events=kinds,
                outcomes=outs,
            ),
            assumptions=list(self.assumptions),
            wall_s=round(time.time() - t0, 2),
            violations=len(new),
        )
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.id}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for text in sorted(known):
            print(f"KNOWN-FINDING: property={self.id} {text}")
        if not new:
            print(
                f"{self.id} {tier}: ok  model states {sum(s['states'] for s in mstats)}, "
                f"{len(scns)} scenarios, {len(judged)} calls judged, {ev['wall_s']} s"
            )
            return 0
        rd = VERIF / "evidence" / "replay"
        rd.mkdir(parents=True, exist_ok=True)
        f = rd / f"{self.id}.json"
        dump = []
        for line, clauses in new[:20]:
            sid = line["sid"]
            dump.append(dict(clauses=clauses, line=line, scenario=scns[sid], trace=[x for x in lines if x["sid"] == sid][:60]))
        f.write_text(json.dumps(dict(property=self.id, violations=len(new), first=dump), indent=1) + "\n")
        line, clauses = new[0]
        print(f"{self.id}: {len(new)} recorded calls are not allowed by the specification; the first:")
        print("  clauses:", clauses)
        print("  line:", json.dumps(line)[:1500])
        print(f"VIOLATION property={self.id} replay={f}")
        return 1

    def postprocess(self, lines, scratch):
        return lines


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, str(HARNESS))
    import importlib

    mod = importlib.import_module(f"props.{pid.lower()}")
    try:
        return mod.CHECK.run(tier, seed)
    except MachineryError as ex:
        print(f"ERROR: {ex}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    import vlib

    sys.exit(vlib.main(sys.argv))
