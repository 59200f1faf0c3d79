"""Runs many short scenarios against real processes and collects what they observed."""
import concurrent.futures
import hashlib
import json
import random
import threading
import time
import traceback

import bb
import common
from common import Inconclusive, Violated


class Run:
    """One scenario: its random choices, its log, its observations."""

    def __init__(self, name, key):
        self.name = name
        self.key = key
        self.rng = random.Random(f"{name}/{key}")
        self.trace = []
        self.counts = {}
        self.nontrivial = False
        self.fingerprint = []

    def log(self, *a):
        self.trace.append(" ".join(str(x) for x in a)[:600])

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def did(self, what):
        """Something that makes this scenario different from others."""
        self.fingerprint.append(str(what))
        self.nontrivial = True


def run(res, name, fn, count, budget_s, workers=6, rule="", salt=0, need_peer=False, need_daemon=True):
    if need_daemon:
        bb.need_daemon()
    if need_peer:
        bb.need_peer()
    seed = common.seed()
    t0 = time.time()
    bb.deadline[0] = t0 + budget_s + 120
    lock = threading.Lock()
    part = {"scenarios": 0, "distinct": 0, "observed": {}, "inconclusive": 0}
    fingerprints = set()
    stop = threading.Event()

    def one(i):
        if stop.is_set() or time.time() - t0 > budget_s:
            return
        r = Run(name, f"{seed}/{salt}/{i}")
        violation = inconclusive = None
        for attempt in (0, 1):
            try:
                inconclusive = None
                fn(r)
                break
            except Violated as v:
                violation = v
                break
            except Inconclusive as e:
                inconclusive = str(e)
            except Exception:       # noqa: BLE001
                inconclusive = "harness: " + traceback.format_exc()[-1500:]
            # Once more with the same choices, it might have been the machine.
            if attempt == 0:
                if time.time() - t0 > budget_s:
                    break
                r = Run(name, f"{seed}/{salt}/{i}")
        with lock:
            part["scenarios"] += 1
            for k, n in r.counts.items():
                part["observed"][k] = part["observed"].get(k, 0) + n
            if violation:
                sig = f"{name}/{violation.signature}"
                res.violation(sig, violation.detail, r.trace + [str(x) for x in violation.trace])
                if sig not in {k["signature"] for k in common.known_findings(res.prop)}:
                    if len(res.violations) >= 3:
                        stop.set()
            elif inconclusive:
                part["inconclusive"] += 1
                res.inconclusive.append(f"{name} #{i}: {inconclusive}"[:2000])
            if not inconclusive:
                res.evaluations += 1
                if r.nontrivial:
                    h = hashlib.sha256(json.dumps(r.fingerprint).encode()).hexdigest()
                    if h not in fingerprints:
                        fingerprints.add(h)
                        res.distinct += 1
                        part["distinct"] += 1
                        if len(fingerprints) <= 2:
                            res.sample({name: r.trace[:40]})

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, range(count)))
    part["wall_s"] = round(time.time() - t0, 1)
    res.parts[name] = part
    if rule and rule not in res.rules:
        res.rules.append(rule)
    bb.kill_all()
