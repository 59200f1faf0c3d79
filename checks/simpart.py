"""Histories of whole networks of real document actors (crate sim/)."""
import json
import os
import re
import subprocess

import common
from common import Inconclusive

RULE = ("sim: each execution is one random history (several real document actors, links that are cut, reordered in time and "
        "restarted, editors following the documented protocol, other programs changing files), drawn from the seed; "
        "a monitor compares against independent models after every step. Counted as distinct and non-trivial: histories "
        "whose schedule of events differs from all others of the run and in which edits or file changes were made.")


def run(res, profiles, kinds, histories, time_limit, salt=0):
    try:
        bindir = common.build_crate("sim")
    except Inconclusive as e:
        res.inconclusive.append(f"sim: {e}")
        return
    d = common.scratch("vsim-")
    out = os.path.join(d, "out.json")
    cmd = [os.path.join(bindir, "vsim"), "--profiles", ",".join(profiles), "--histories", str(histories),
           "--seed", str(common.seed() * 1000 + salt), "--time-limit", str(time_limit), "--scratch", d, "--out", out,
           "--threads", "8", "--keep-going"]
    try:
        r = subprocess.run(cmd, env=common.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=time_limit * 2 + 120)
    except subprocess.TimeoutExpired:
        res.inconclusive.append("sim: did not finish in time")
        return
    if not os.path.exists(out):
        res.inconclusive.append(f"sim: ended with {r.returncode}: {r.stdout[-2000:]}")
        return
    o = json.load(open(out))
    res.evaluations += o["histories"]
    res.distinct += o["distinct_schedules"]
    if RULE not in res.rules:
        res.rules.append(RULE)
    part = {"histories": o["histories"], "distinct_schedules": o["distinct_schedules"], "per_profile": o["per_profile"],
            "wall_s": o["wall_s"], "observed": o["counters"], "other": {}}
    for s in o["samples"][:3]:
        res.sample({"sim": s})
    for i in o["inconclusive"][:5]:
        res.inconclusive.append(f"sim: {i}"[:2000])
    for v in o["violations"]:
        if v["kind"] in kinds:
            sig = re.sub(r"\d+", "N", f"sim/{v['profile']}/{v['kind']}")
            res.violation(sig, v["detail"], v["trace"])
        else:
            part["other"][v["kind"]] = part["other"].get(v["kind"], 0) + 1
    res.parts["sim " + "+".join(profiles)] = part
