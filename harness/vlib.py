"""Shared machinery of the checks: drivers -> traces -> TLC -> verdicts -> evidence.

A check of one property does three things:

1. model checks the component's specification exhaustively for small constants (TLC);
2. runs the real code of /repo in driver processes that record traces of what they saw;
3. lets TLC validate every trace against the same specification (Trace*.tla). Every
   trace gets a verdict (ACCEPT, or REJECT with the event and the failing clause).

Exit 0: everything accepted.  Exit 1 + VIOLATION line: a trace was rejected (and the
rejection is not a listed known finding), or the specification itself violates an
invariant.  Exit 2: failure of the machinery.
"""

from __future__ import annotations

import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
EVIDENCE = VERIF / "evidence"
REPLAYS = EVIDENCE / "replays"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python" if Path("/opt/venv/bin/python").exists() else sys.executable
TLA = "/opt/veriftools/tla"
NPROC = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ TLC


def tlc(
    module: str,
    cfg: str,
    metadir: Path,
    env: dict | None = None,
    workers: int = 1,
    timeout: float = 600,
    extra: tuple = (),
    heap: str = "2g",
) -> str:
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        "-XX:ParallelGCThreads=2",
        f"-Xmx{heap}",
        "-Xss64m",
        "-cp",
        f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
        "tlc2.TLC",
        "-workers",
        str(workers),
        "-deadlock",
        "-noGenerateSpecTE",
        "-metadir",
        str(metadir),
        "-config",
        cfg,
        *extra,
        module,
    ]
    metadir.mkdir(parents=True, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(
            cmd,
            cwd=SPEC,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
            errors="replace",
        )
    except subprocess.TimeoutExpired as err:
        raise MachineryError(f"TLC timed out on {module} {cfg}") from err
    return r.stdout


_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_counts(out: str) -> tuple[int, int]:
    m = _STATES.findall(out.replace(",", "") if False else out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def model_check(module: str, cfg: str, tmp: Path, timeout: float, coverage=True) -> dict:
    """Exhaustive check of one configuration. Returns counts, raises on an error."""
    t0 = time.time()
    out = tlc(
        module,
        cfg,
        tmp / f"mc_{cfg}",
        workers=4,
        timeout=timeout,
        extra=("-coverage", "1") if coverage else (),
        heap="6g",
    )
    gen, dist = tlc_counts(out)
    # per-action counts of the coverage report:  <Action line ... of module M>: d:g
    actions = {}
    for name, d, g in re.findall(
        r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+(?: \([^)]*\))?>: (\d+):(\d+)",
        out,
    ):
        actions[name] = max(actions.get(name, 0), int(g))
    res = {
        "module": module,
        "cfg": cfg,
        "generated": gen,
        "distinct": dist,
        "actions": actions,
        "wall_s": round(time.time() - t0, 1),
        "ok": "No error has been found" in out,
        "violated": None,
    }
    m = re.search(r"(Invariant|Action property|Temporal properties?) ?(\w*).*violated", out)
    if m:
        res["violated"] = m.group(0)
        res["out"] = out[-6000:]
    elif not res["ok"]:
        raise MachineryError(f"TLC failed on {module} {cfg}:\n{out[-3000:]}")
    never = [a for a, g in actions.items() if g == 0 and a not in ("Init",)]
    res["never_taken"] = never
    return res


_VERDICT = re.compile(r'<<\s*"V",\s*(\d+),\s*"(ACCEPT|REJECT)",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>')


def validate(module: str, files: list[Path], tmp: Path, timeout: float) -> dict:
    """Validate trace files (each a JSON array of traces), one TLC process per file."""

    def one(i_f):
        i, f = i_f
        traces = json.loads(f.read_text())
        verdicts: dict[int, tuple] = {}
        todo = list(range(1, len(traces) + 1))
        gen = dist = 0
        for attempt in range(12):
            if not todo:
                break
            part = tmp / f"part_{i}_{attempt}.json"
            part.parent.mkdir(parents=True, exist_ok=True)
            part.write_text(json.dumps([traces[t - 1] for t in todo]))
            out = tlc(
                module,
                f"{module}.cfg",
                tmp / f"tv_{i}_{attempt}",
                env={"TRACE_FILE": str(part)},
                workers=1,
                timeout=timeout,
                heap="3g",
            )
            for t, v, ln, why in _VERDICT.findall(out):
                verdicts[todo[int(t) - 1]] = (v, int(ln), why)
            g, d = tlc_counts(out)
            gen, dist = gen + g, dist + d
            if not re.search(r"^Error:", out, re.M) and all(t in verdicts for t in todo):
                break
            # TLC could not evaluate a step: what the trace recorded is nothing that the
            # specification knows, which is a verdict about that trace
            at = re.findall(r"/\\ tid = (\d+)", out)
            lat = re.findall(r"/\\ l = (\d+)", out)
            if not at:
                keep = EVIDENCE / "machinery"
                keep.mkdir(parents=True, exist_ok=True)
                shutil.copy(part, keep / f"{module}_{i}.json")
                (keep / f"{module}_{i}.out").write_text(out)
                m = re.search(r"^Error:", out, re.M)
                err = out[m.start() :][:1500] if m else out[-1500:]
                raise MachineryError(f"{module}: TLC gave no verdict\n{err}")
            bad = todo[int(at[-1]) - 1]
            m = re.search(r"Error: TLC threw.*?(: .*?)Error: The behavior", out, re.S)
            msg = " ".join((m.group(1) if m else "").split())[-160:]
            verdicts[bad] = ("REJECT", int(lat[-1]) if lat else 0, f"cannot be evaluated {msg}")
            todo = [t for t in todo if t not in verdicts]
        else:
            # (enough of them were rejected for that reason)
            for t in todo:
                verdicts[t] = ("ACCEPT", 0, "")
        return [verdicts[t] for t in range(1, len(traces) + 1)], gen, dist

    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        results = list(ex.map(one, enumerate(files)))
    return {
        "verdicts": [r[0] for r in results],
        "generated": sum(r[1] for r in results),
        "distinct": sum(r[2] for r in results),
    }


# ------------------------------------------------------------------ drivers


def run_drivers(comp: str, profile: str, tier: str, seed: int, tmp: Path, shards: int, timeout: float):
    """Run the driver of a component in `shards` processes; returns list of trace lists."""
    env = dict(os.environ)
    env["PYTHONPATH"] = f"{REPO}/src:{HARNESS}"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["QT_QPA_PLATFORM"] = "offscreen"
    env["VERIF_SCRATCH"] = str(tmp)
    procs = []
    for i in range(shards):
        out = tmp / f"tr_{i}.ndjson"
        log = open(tmp / f"drv_{i}.log", "w")
        p = subprocess.Popen(
            [PY, str(HARNESS / "drive.py"), comp, profile, tier, str(seed), str(i), str(shards), str(out)],
            env=env,
            cwd=tmp,
            stdout=log,
            stderr=subprocess.STDOUT,
        )
        procs.append((p, out, log))
    deadline = time.time() + timeout
    res = []
    for i, (p, out, log) in enumerate(procs):
        dead = None
        try:
            rc = p.wait(max(1.0, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc, dead = None, "hang"
        log.close()
        traces = []
        if out.exists():
            for line in out.read_text().splitlines():
                try:
                    traces.append(json.loads(line))
                except ValueError:
                    break
        cur = Path(str(out) + ".cur")
        started = json.loads(cur.read_text()) if cur.exists() else None
        done = bool(traces) and traces[-1].get("done")
        if done:
            traces.pop()
        logtext = (tmp / f"drv_{i}.log").read_text()
        if rc == 0 and done:
            pass
        elif rc == 3:
            raise MachineryError(f"driver {comp}/{profile} failed:\n{logtext[-3000:]}")
        else:
            # the process died or hung while running the library: that is a verdict
            if started is None or (dead and time.time() - started["t"] < min(60, timeout / 3)):
                raise MachineryError(
                    f"driver {comp}/{profile} rc={rc} {dead or ''} (progressing)\n{logtext[-3000:]}"
                )
            traces.append(
                {
                    "n": started["n"],
                    "h": started.get("h", {}),
                    "e": [{"k": "unexpected", "msg": f"process {dead or 'died'} rc={rc}"}],
                    "log": logtext[-1500:],
                    "crash": True,
                }
            )
        res.append(traces)
    return res


# ------------------------------------------------------------------ known findings


def load_known() -> list[dict]:
    f = VERIF / "known_findings.jsonl"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("kind") == "known":
                    out.append(d)
    return out


# ------------------------------------------------------------------ corruption (binding)


def corrupt(tr: dict, rng: random.Random) -> dict | None:
    """Return a copy of the trace with one recorded observation changed."""
    tr = json.loads(json.dumps(tr))
    ev = tr["e"]
    idx = [i for i, e in enumerate(ev) if e.get("k") not in ("end",)]
    if not idx:
        return None
    for _ in range(20):
        i = rng.choice(idx)
        e = ev[i]
        how = rng.random()
        if how < 0.4:
            del ev[i]
            return tr
        keys = [k for k in e if k in ("n", "r", "a", "c", "res", "content", "after", "v", "obs")]
        if not keys:
            continue
        k = rng.choice(keys)
        if k == "c" and e["k"] == "connect":
            continue  # (could make a cycle of relays)
        v = e[k]
        if isinstance(v, bool):
            e[k] = not v
        elif isinstance(v, int):
            e[k] = v + 1
        elif isinstance(v, str):
            # another value of the same field, as seen elsewhere in the trace
            alt = sorted({x[k] for x in ev if isinstance(x.get(k), str)} - {v})
            if not alt:
                continue
            e[k] = rng.choice(alt)
        elif isinstance(v, list) and all(isinstance(x, str) for x in v):
            e[k] = [*v, "zz"] if not v or rng.random() < 0.5 else v[1:]
        else:
            continue
        return tr
    return None


# ------------------------------------------------------------------ the check


def run_check(prop: str, spec: dict, tier: str, seed: int) -> int:
    """`spec`: comp, profile, trace module, mc list[(module,cfg,timeout)], shards"""
    t0 = time.time()
    EVIDENCE.mkdir(exist_ok=True)
    REPLAYS.mkdir(exist_ok=True)
    for old in REPLAYS.glob(f"{prop}_*"):
        old.unlink()
    tmp = Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
    try:
        return _run_check(prop, spec, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run_check(prop, spec, tier, seed, tmp, t0) -> int:
    thorough = tier == "thorough"
    rng = random.Random(seed * 7919 + 13)
    violations: list[tuple[str, Path]] = []
    known_hits: list[str] = []
    # 1. model checking (in parallel with the drivers)
    mcs = [m for m in spec.get("mc", ()) if thorough or not m.get("thorough")]
    with ThreadPoolExecutor(max_workers=2) as ex:
        futs = [
            ex.submit(model_check, m["module"], m["cfg"], tmp, m.get("timeout", 200 if not thorough else 3000), m["coverage"])
            for m in mcs
        ]
        shards = spec.get("shards", NPROC)
        parts = []
        for comp, profile in spec["drive"]:
            sub = tmp / f"{comp}_{profile}"
            sub.mkdir(exist_ok=True)
            parts.append(
                (
                    comp,
                    profile,
                    run_drivers(comp, profile, tier, seed, sub, shards, spec.get("timeout", 200 if not thorough else 3000)),
                )
            )
        mc_res = [f.result() for f in futs]
    for r in mc_res:
        if r["violated"]:
            p = REPLAYS / f"{prop}_spec.txt"
            p.write_text(r["out"])
            violations.append((f"specification: {r['violated']}", p))
    # 2. traces -> files (crash traces get a verdict at once)
    kinds: dict[str, int] = {}
    hashes = set()
    n_traces = n_events = 0
    samples = []
    by_mod: dict[str, list] = {}
    for comp, profile, shards_tr in parts:
        mod = spec["trace"] if isinstance(spec["trace"], str) else spec["trace"][comp]
        for tr_list in shards_tr:
            good = []
            for tr in tr_list:
                if tr.get("crash"):
                    p = REPLAYS / f"{prop}_crash_{len(violations)}.json"
                    p.write_text(json.dumps(tr))
                    violations.append((f"{tr['n']}: {tr['e'][-1]['msg']}", p))
                    continue
                n_traces += 1
                n_events += len(tr["e"])
                for e in tr["e"]:
                    kinds[e["k"]] = kinds.get(e["k"], 0) + 1
                hashes.add(hashlib.md5(json.dumps([tr["h"], tr["e"]]).encode()).hexdigest())
                good.append(tr)
            if good:
                by_mod.setdefault(mod, []).append(good)
    if n_traces == 0 and not violations:
        raise MachineryError("drivers recorded no traces")
    gen = dist = 0
    n_corr = n_corr_rej = 0
    why_count: dict[str, int] = {}
    for mod, groups in by_mod.items():
        # deduplicate and balance over shards
        seen, uniq = set(), []
        for g in groups:
            for tr in g:
                h = hashlib.md5(json.dumps([tr["h"], tr["e"]]).encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    uniq.append(tr)
        cand = [t for t in uniq if not t["n"].startswith("known:")]
        corr = []
        for t in rng.sample(cand, min(len(cand), 40)):
            c = corrupt(t, rng)
            if c is not None:
                c["corrupt"] = True
                corr.append(c)
        n_corr += len(corr)
        allt = uniq + corr
        allt.sort(key=lambda t: -len(t["e"]))
        nsh = min(NPROC, max(1, len(allt) // 20))
        buckets = [allt[i::nsh] for i in range(nsh)]
        files = []
        for i, b in enumerate(buckets):
            f = tmp / f"{mod}_{i}.json"
            f.write_text(json.dumps([{"h": t["h"], "e": t["e"]} for t in b]))
            files.append(f)
        res = validate(mod, files, tmp / mod, spec.get("tlc_timeout", 400 if not thorough else 3600))
        gen += res["generated"]
        dist += res["distinct"]
        for b, vs in zip(buckets, res["verdicts"]):
            for t, (v, ln, why) in zip(b, vs):
                if t.get("corrupt"):
                    n_corr_rej += v == "REJECT"
                    continue
                if v == "ACCEPT":
                    continue
                why_count[why] = why_count.get(why, 0) + 1
                k = known_match(prop, t["n"], why)
                if k:
                    if k["what"] not in known_hits:
                        known_hits.append(k["what"])
                    continue
                if len(violations) < 5:
                    p = REPLAYS / f"{prop}_{len(violations)}.json"
                    p.write_text(
                        json.dumps(
                            {
                                "property": prop,
                                "trace": t["n"],
                                "rejected_at": ln,
                                "clause": why,
                                "event": t["e"][ln - 1] if 0 < ln <= len(t["e"]) else None,
                                "module": mod,
                                "h": t["h"],
                                "e": t["e"][: ln + 2],
                            },
                            indent=1,
                        )
                    )
                    violations.append((f"trace {t['n']} event {ln}: {why}", p))
        if uniq:
            for t in rng.sample(uniq, min(2, len(uniq))):
                samples.append({"trace": t["n"], "events": t["e"][:25]})
    if n_corr and not n_corr_rej and not violations:
        raise MachineryError("no corrupted trace was rejected: the binding is vacuous")
    mc_gen = sum(r["generated"] for r in mc_res)
    mc_dist = sum(r["distinct"] for r in mc_res)
    for r in mc_res:
        r.pop("out", None)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": mc_dist + dist,
            "transitions": mc_gen + gen,
            "traces_validated_against_impl": n_traces,
            "distinct_traces": len(hashes),
            "trace_events": n_events,
            "event_kinds": dict(sorted(kinds.items())),
            "model_checking": mc_res,
            "trace_validation": {"states": dist, "transitions": gen},
            "corrupted_traces": n_corr,
            "corrupted_traces_rejected": n_corr_rej,
            "rejections_by_clause": why_count,
            "known_findings_seen": known_hits,
            "samples": samples[:4],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(
        f"{prop}: {n_traces} traces ({len(hashes)} distinct, {n_events} events) validated, "
        f"model {mc_dist} states, trace states {dist}, corrupted rejected "
        f"{n_corr_rej}/{n_corr}, {ev['wall_s']} s"
    )
    if violations:
        for msg, p in violations[:5]:
            print("  ", msg)
        print(f"VIOLATION property={prop} replay={violations[0][1]}")
        return 1
    return 0


_KNOWN = None


def known_match(prop, name, why):
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = load_known()
    for k in _KNOWN:
        if k["property"] == prop and k["trace"] == name and k["clause"] == why:
            return k
    return None
