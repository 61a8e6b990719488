#!/usr/bin/env python3
"""
Runs the check of one property:

    python3 check.py C01            (tier and seed from VERIF_TIER, VERIF_SEED)

1. builds the extension modules from /repo's working tree;
2. runs TLC on the property's design models (finite instances of the spec);
3. runs the property's driver(s) against the real code, recording what the
   code did, in parallel shards;
4. has TLC judge every recorded case against the specification.

Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 the check itself
could not run (build failure, TLC failure).
"""

import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from registry import PROPS  # noqa: E402

SPEC = HERE / "spec"
PY = "/opt/venv/bin/python"
NSHARD = 8


class MachineryError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CC", "CXX"):
        e.pop(k, None)
    e.update(
        PATH="/opt/venv/bin:" + e.get("PATH", "/usr/bin:/bin"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
    )
    e.update({k: str(v) for k, v in kw.items()})
    return e


def build():
    with open("/tmp/.verif-build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(
            ["bash", "/opt/vp/build.sh"], capture_output=True, text=True
        )
    if p.returncode != 0:
        raise MachineryError("build failed:\n" + (p.stdout + p.stderr)[-3000:])


def drive(drv, work, seed, tier, prop, shard, timeout, extra):
    """One driver process; returns (trace path, crash description or None)."""
    out = work / f"{drv}-{shard}.ndjson"
    err = work / f"{drv}-{shard}.err"
    cmd = [
        PY,
        str(HERE / "harness" / "drive.py"),
        drv,
        str(out),
        str(seed),
        tier,
        prop,
        str(shard),
        str(NSHARD),
    ]
    with open(err, "w") as fh:
        try:
            p = subprocess.run(
                cmd,
                stdout=fh,
                stderr=fh,
                env=env(
                    WORK=str(work / f"scratch-{drv}-{shard}"),
                    BEHAVIOURS=str(work),
                    **extra,
                ),
                timeout=timeout,
                cwd=work,
            )
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    if rc == 0:
        return out, None
    tail = err.read_text(errors="replace")[-2500:]
    cur = Path(str(out) + ".cur")
    if rc == 3 or (rc != "timeout" and rc > 0 and not cur.exists()):
        raise MachineryError(f"driver {drv} failed ({rc}):\n{tail}")
    doing = cur.read_text() if cur.exists() else "{}"
    try:
        doing = json.loads(doing)
    except ValueError:
        pass
    return out, dict(crash=str(rc), stderr=tail, doing=doing)


def tlc(module, cfg, work, tag, workers=8, timeout=800, extra=(), **kw):
    """Runs TLC; returns its output as text."""
    meta = work / f"tlc-{tag}"
    cmd = [
        "tlc",
        "-workers",
        str(workers),
        "-metadir",
        str(meta),
        "-noGenerateSpecTE",
        *extra,
        "-config",
        str(cfg),
        f"{module}.tla",
    ]
    try:
        p = subprocess.run(
            cmd,
            cwd=SPEC,
            capture_output=True,
            text=True,
            timeout=timeout,
            env=env(**kw),
        )
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    (work / f"tlc-{tag}.out").write_text(p.stdout + p.stderr)
    return p.returncode, p.stdout + p.stderr


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, 0 states left")
SIMSTATS = re.compile(r"The number of states generated: (\d+)")


def stats(text):
    m = STATS.findall(text)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = SIMSTATS.findall(text)
    if m:
        return int(m[-1]), int(m[-1])
    return None


def design(spec, work, tier):
    """One TLC run on a design model. Must succeed: it is about the spec."""
    module, cfg = spec["module"], spec["cfg"]
    if tier == "thorough" and spec.get("thorough_cfg"):
        cfg = spec["thorough_cfg"]
    rc, text = tlc(
        module,
        SPEC / cfg,
        work,
        f"design-{module}-{cfg}",
        workers=spec.get("workers", 4),
        timeout=spec.get("timeout", 700 if tier == "quick" else 7200),
    )
    st = stats(text)
    if rc != 0 or st is None:
        raise MachineryError(f"design model {module}/{cfg} failed:\n{text[-3000:]}")
    return dict(model=f"{module}/{cfg}", generated=st[0], distinct=st[1])


def generate(spec, work):
    """Has TLC print behaviours of a model, for drivers to replay."""
    module, cfg = spec["module"], spec["cfg"]
    rc, text = tlc(
        module, SPEC / cfg, work, f"generate-{cfg}", workers=spec.get("workers", 4)
    )
    st = stats(text)
    if rc != 0 or st is None:
        raise MachineryError(f"generator {module}/{cfg} failed:\n{text[-3000:]}")
    lines = sorted(
        json.loads(x) for x in text.splitlines() if x.startswith('"{') and x.endswith('}"')
    )
    if not lines:
        raise MachineryError(f"generator {module}/{cfg} gave no behaviours")
    (work / f"{spec['name']}.behaviours").write_text("\n".join(lines) + "\n")
    return dict(model=f"{module}/{cfg}", generated=st[0], distinct=st[1], behaviours=len(lines))


FAIL = re.compile(r'<<"FAIL", (\d+), "([^"]*)">>')


def judge(module, trace, work, prop, tag, workers=8, timeout=800):
    """TLC's verdicts on all cases of a trace: (fails, generated, distinct)."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return [], 0, 0, 0
    rc, text = tlc(
        module,
        SPEC / f"{module}.cfg",
        work,
        tag,
        workers=workers,
        timeout=timeout,
        TRACE_FILE=str(trace),
        PROP=prop,
    )
    st = stats(text)
    fails = {(int(i), c) for i, c in FAIL.findall(text)}
    if rc != 0 or st is None:
        case = shapeless(module, text, n)
        if case is None:
            raise MachineryError(
                f"TLC failed judging {trace}:\n{text[:200]}...{text[-3500:]}"
            )
        fails.add((case, "shape"))
        st = (0, 0)
    return sorted(fails), st[0], st[1], n


def shapeless(module, text, n):
    """
    The case at which TLC could not evaluate the specification, if that is why
    it stopped: what was recorded does not even have the shape (activities that
    exist, lists of the right length) that the specification says it has.
    """
    if "The behavior up to this point is" not in text:
        return None
    lanes = re.findall(r"/\\ lane = (\d+)", text)
    poss = re.findall(r"/\\ pos = (\d+)", text)
    nchunk = re.search(r"NCHUNK = (\d+)", (SPEC / f"{module}.cfg").read_text())
    if not lanes or not poss or not nchunk:
        return None
    case = int(poss[-1]) * int(nchunk[1]) + int(lanes[-1])
    return case if 1 <= case <= n else None


def known_findings(prop):
    path = HERE / "known_findings.json"
    items = json.loads(path.read_text()) if path.exists() else []
    return [x for x in items if x["property"] == prop and x["status"] == "known"]


def small_sample(path, k=2, limit=2500):
    out = []
    for line in open(path):
        if len(line) <= limit:
            out.append(json.loads(line))
        if len(out) == k:
            break
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = PROPS[prop]
    start = time.time()

    work = HERE / "work" / f"{prop}-{tier}"
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    replays = HERE / "replays"
    replays.mkdir(exist_ok=True)
    (HERE / "evidence").mkdir(exist_ok=True)

    violations = []  # (clause, record)
    designs = []
    generated = distinct = judged = 0
    samples = []
    clauses = {}

    t_driver = 420 if tier == "quick" else 5400
    t_tlc = 600 if tier == "quick" else 7200

    with cf.ThreadPoolExecutor(max_workers=NSHARD + 2) as pool:
        # The design models only look at the specification, so they can run
        # while the code builds.
        dfuts = [
            pool.submit(design, s, work, tier)
            for s in conf.get("design", [])
            if tier == "thorough" or not s.get("thorough_only")
        ]
        gfuts = [pool.submit(generate, s, work) for s in generators(conf, tier)]
        build()
        t_build = time.time() - start
        for f in gfuts:
            designs.append(f.result())

        for drv, module in conf["drivers"]:
            nsh = conf.get("shards", NSHARD)
            futs = [
                pool.submit(
                    drive, drv, work, seed, tier, prop, k, t_driver, conf.get("env", {})
                )
                for k in range(nsh)
            ]
            results = [f.result() for f in futs]
            trace = work / f"{drv}.ndjson"
            with open(trace, "w") as fh:
                for out, crash in results:
                    if crash:
                        violations.append(("crash", crash))
                    if out.exists():
                        lines = out.read_text().splitlines(True)
                        if lines and not lines[-1].endswith("\n"):
                            lines.pop()  # process died while writing
                        fh.writelines(lines)
                        out.unlink()
            samples += small_sample(trace)
            # Trace files are judged in parts to bound TLC's memory.
            parts = [trace]
            if tier == "thorough":
                parts = split(trace, 40000)
            for k, part in enumerate(parts):
                fails, g, d, n = judge(
                    module, part, work, prop, f"{drv}-{k}", timeout=t_tlc
                )
                generated += g
                distinct += d
                judged += n
                if fails:
                    lines = open(part).read().splitlines()
                    for i, clause in fails:
                        clauses[clause] = clauses.get(clause, 0) + 1
                        if len(violations) < 200:
                            violations.append((clause, json.loads(lines[i - 1])))
        for f in dfuts:
            designs.append(f.result())
    for x in designs:
        generated += x["generated"]
        distinct += x["distinct"]

    known, fresh = [], []
    for clause, rec in violations:
        for k in known_findings(prop):
            if k["clause"] == clause and k["key"] == rec.get("key"):
                known.append(k)
                break
        else:
            fresh.append((clause, rec))

    coverage = dict(
        states=distinct,
        transitions=max(generated - 1, 0),
        traces_validated_against_impl=judged,
        samples=samples[:2] or ["none"],
        design_models=designs,
        failing_clauses=clauses,
        rule=conf.get("rule", ""),
        build_s=round(t_build, 1),
    )
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=conf.get("level", "model_checking"),
        coverage=coverage,
        assumptions=conf.get("assumptions", []),
        wall_s=round(time.time() - start, 1),
        violations=len(fresh),
    )
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    for k in {x["key"]: x for x in known}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    if judged == 0 and not fresh:
        raise MachineryError("nothing was recorded")

    if fresh:
        clause, rec = min(fresh, key=lambda x: len(json.dumps(x[1])))
        path = replays / f"{prop}-{seed}.json"
        path.write_text(json.dumps(dict(property=prop, clause=clause, case=rec), indent=1))
        for c in sorted({c for c, _ in fresh}):
            print(f"  failing clause: {c} ({clauses.get(c, 1)} cases)")
        print(f"VIOLATION property={prop} replay={path}")
        cleanup(work)
        return 1

    cleanup(work)
    print(
        f"{prop} held: {judged} recorded cases, {distinct} states, "
        f"{round(time.time() - start, 1)} s"
    )
    return 0


def generators(conf, tier):
    for s in conf.get("generate", []):
        if tier == "thorough" and s.get("thorough_cfg"):
            s = dict(s, cfg=s["thorough_cfg"])
        yield s


def split(trace, size):
    parts, fh, k = [], None, 0
    for i, line in enumerate(open(trace)):
        if i % size == 0:
            if fh:
                fh.close()
            p = Path(f"{trace}.{k}")
            parts.append(p)
            fh = open(p, "w")
            k += 1
        fh.write(line)
    if fh:
        fh.close()
    return parts or [trace]


def cleanup(work):
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as e:
        print(f"CHECK-ERROR: {e}", file=sys.stderr)
        sys.exit(2)
