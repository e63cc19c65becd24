"""Driver process: runs programs of one component against the real code.

usage: drive.py COMPONENT PROFILE TIER SEED SHARD NSHARDS OUT

Every program is run by the component's `run(profile, choice, rec)`; what it records is
written as one trace. Choices are taken from a random source (seeded) or enumerated.
"""

from __future__ import annotations

import gc
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings


class Hang(BaseException):
    """A program did not finish in time."""


class StopProgram(BaseException):
    """Raised by a component to end the program early (not an error)."""


class RandomChoice:
    exhaustive = False

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def choose(self, n, what=""):
        return self.rng.randrange(n)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def weighted(self, pairs):
        """pairs: (item, weight). A weight of zero excludes the item."""
        pairs = [p for p in pairs if p[1] > 0]
        tot = sum(w for _, w in pairs)
        x = self.rng.random() * tot
        for it, w in pairs:
            x -= w
            if x <= 0:
                return it
        return pairs[-1][0]

    def chance(self, p):
        return self.rng.random() < p


class EnumChoice:
    """Systematic enumeration of all choice sequences (depth first)."""

    exhaustive = True

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []  # (value, n)

    def choose(self, n, what=""):
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((v, n))
        return v

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def weighted(self, pairs):
        pairs = [p for p in pairs if p[1] > 0]
        return pairs[self.choose(len(pairs))][0]

    def chance(self, p):
        return self.choose(2) == 1 if 0 < p < 1 else p >= 1

    def next_prefix(self):
        t = list(self.taken)
        while t:
            v, n = t.pop()
            if v + 1 < n:
                return [x for x, _ in t] + [v + 1]
        return None


class Rec:
    """Recorder of one trace."""

    def __init__(self):
        self.h = {}
        self.e = []
        self.limit = 4000

    def log(self, k, **kw):
        kw["k"] = k
        self.e.append(kw)
        return kw


def main():
    comp_name, profile, tier, seed, shard, nshards, out = sys.argv[1:8]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    warnings.simplefilter("ignore")
    try:
        comp = importlib.import_module(f"comp_{comp_name}")
        jobs = list(comp.jobs(profile, tier, seed))
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    f = open(out, "w")
    cur = out + ".cur"
    gc.collect()
    gc.freeze()

    def on_alarm(*a):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    hang_s = getattr(comp, "HANG_S", 40)

    def run_one(name, params, choice, write=True):
        with open(cur, "w") as c:
            json.dump({"n": name, "t": time.time()}, c)
        rec = Rec()
        try:
            signal.setitimer(signal.ITIMER_REAL, hang_s)
            try:
                comp.run(profile, params, choice, rec)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except StopProgram:
            pass
        except Hang:
            rec.log("unexpected", msg="hang: the program did not finish")
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(x.filename)}:{x.name}" for x in tb[-1:-6:-1])
            rec.log("unexpected", msg=f"{type(e).__name__}: {str(e)[:200]} at {where}"[:500].replace('"', "'").replace("\\", "/").replace("\n", " "))
        rec.log("end")
        if write:
            f.write(json.dumps({"n": name, "h": rec.h, "e": rec.e}) + "\n")
            f.flush()

    i = 0
    for job in jobs:
        kind = job["kind"]
        if kind == "random":
            for j in range(job["count"]):
                i += 1
                if i % nshards == shard:
                    nm = f"{job['name']}#{j}@{seed}"
                    run_one(nm, job.get("params", {}), RandomChoice(f"{seed}/{job['name']}/{j}"))
        elif kind == "enum":
            # every shard walks the tree of choices, and writes its part of it
            prefix, j = [], 0
            while prefix is not None and j < job["limit"]:
                ch = EnumChoice(prefix)
                nm = f"{job['name']}!{'.'.join(map(str, prefix))}"
                run_one(nm, job.get("params", {}), ch, write=j % nshards == shard)
                prefix = ch.next_prefix()
                j += 1
        elif kind == "list":
            for j, params in enumerate(job["items"]):
                i += 1
                if i % nshards == shard:
                    nm = params.get("name") or f"{job['name']}:{j}"
                    run_one(nm, params, RandomChoice(f"{seed}/{job['name']}/{j}"))
    f.write(json.dumps({"done": True}) + "\n")
    f.close()


if __name__ == "__main__":
    # (components import this module by name: share the exception classes)
    sys.modules["drive"] = sys.modules["__main__"]
    main()
