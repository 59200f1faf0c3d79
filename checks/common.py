"""Shared by all checks: building from /repo's working tree, verdicts, evidence."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")

CARGO_ENV = {
    "RUSTUP_TOOLCHAIN": "stable",
    "RUSTC_WRAPPER": "",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_INCREMENTAL": "1",
    "CARGO_TERM_COLOR": "never",
    "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
    "CARGO_PROFILE_TEST_DEBUG": "line-tables-only",
}


class Inconclusive(Exception):
    """The check could not be carried out. Never a violation."""


class Violated(Exception):
    """Something the property rules out was observed."""

    def __init__(self, signature, detail, trace=None):
        super().__init__(f"{signature}: {detail}")
        self.signature = signature
        self.detail = detail
        self.trace = trace or []


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def clean_env(**extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}
    env.update(extra)
    return env


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.path = os.path.join(TARGET, f".{name}.lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def touch_sources():
    """Cargo decides by modification time whether to rebuild. A source file that was put back with
    an old time stamp would go unnoticed, so remember contents, and touch what changed."""
    state_path = os.path.join(TARGET, ".sources.json")
    try:
        old = json.load(open(state_path))
    except (OSError, ValueError):
        old = {}
    new = {}
    for base in ("daemon/src", "daemon/Cargo.toml", "daemon/Cargo.lock"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else [
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in files:
            h = hashlib.sha256(open(f, "rb").read()).hexdigest()
            new[f] = h
    changed = [f for f in new if old.get(f) != new[f]] or (sorted(set(old) - set(new)))
    if changed and old:
        main = os.path.join(REPO, "daemon/src/lib.rs")
        for f in [x for x in new if old.get(x) != new[x]] + [main, os.path.join(REPO, "daemon/src/main.rs")]:
            if os.path.exists(f):
                os.utime(f)
    json.dump(new, open(state_path, "w"))


def cargo(args, cwd, what, timeout=800, toolchain=None, extra_env=None):
    env = clean_env(**CARGO_ENV)
    if toolchain:
        env["RUSTUP_TOOLCHAIN"] = toolchain
    env.update(extra_env or {})
    t0 = time.time()
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building {what} took longer than {timeout} s")
    if r.returncode != 0:
        raise Inconclusive(f"building {what} failed:\n{r.stdout[-4000:]}")
    log(f"built {what} in {time.time() - t0:.1f} s")


def build_daemon():
    """The real binary, from /repo's working tree, outside of /repo."""
    with Lock("cargo"):
        touch_sources()
        # The dependencies get optimized, so that the CRDT is not what limits the workloads.
        cargo(["build", "--offline", "--locked", "--bin", "ethersync", "--target-dir", os.path.join(TARGET, "daemon"),
               "--config", 'profile.dev.package."*".opt-level=2', "--config", 'profile.dev.debug="line-tables-only"'],
              os.path.join(REPO, "daemon"), "the daemon")
    return os.path.join(TARGET, "daemon/debug/ethersync")


def build_crate(name):
    with Lock("cargo"):
        touch_sources()
        cargo(["build", "--offline", "--locked", "--target-dir", os.path.join(TARGET, name)],
              os.path.join(VERIF, name), name)
    return os.path.join(TARGET, name, "debug")


_scratch = []


def scratch(prefix="verif-"):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    _scratch.append(d)
    return d


def remove_scratch():
    for d in _scratch:
        assert d.startswith("/tmp/") and len(d) > 8
        shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


def known_findings(prop):
    """Entries that suppress: identified by the exact signature of the finding."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    res.append(d)
    return res


class Result:
    """What the parts of one check observed."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.parts = {}
        self.rules = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, signature, detail, trace=None):
        self.violations.append({"signature": signature, "detail": detail, "trace": trace or []})


def finish(res, level, t0, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    known = known_findings(res.prop)
    unknown, seen_known = [], {}
    for v in res.violations:
        for k in known:
            if k["signature"] == v["signature"]:
                seen_known[k["signature"]] = k
                break
        else:
            unknown.append(v)
    ev = {
        "property": res.prop,
        "tier": tier(),
        "seed": seed(),
        "level": level,
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": res.distinct,
            "rule": " ".join(res.rules),
            "samples": res.samples,
            "observed": res.counters,
            "parts": res.parts,
            "inconclusive": res.inconclusive[:20],
        },
        "assumptions": assumptions,
        "violations": len(unknown),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(EVIDENCE, f"{res.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        f.write("\n")
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={res.prop} {k['what']}")
    for i in res.inconclusive[:10]:
        log("inconclusive:", i[:3000])
    if unknown:
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{res.prop}-{tier()}-{seed()}.json")
        with open(path, "w") as f:
            json.dump(unknown[:10], f, indent=1, ensure_ascii=False, default=str)
        for v in unknown[:5]:
            print(f"{v['signature']}: {v['detail'][:2000]}")
        print(f"VIOLATION property={res.prop} replay={path}")
        return 1
    if res.evaluations == 0 or res.distinct == 0:
        print(f"property={res.prop}: nothing was observed, so nothing was decided")
        return 2
    if len(res.inconclusive) > res.evaluations:
        print(f"property={res.prop}: only {res.evaluations} executions could be decided, {len(res.inconclusive)} could not")
        return 2
    print(f"property={res.prop} held: {res.evaluations} executions, {res.distinct} distinct non-trivial, "
          f"{len(res.inconclusive)} inconclusive, {ev['wall_s']} s")
    return 0
