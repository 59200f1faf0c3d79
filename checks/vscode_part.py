"""Sessions of the VS Code extension (vscode/driver.js)."""
import concurrent.futures
import json
import os
import subprocess

import common
from common import Inconclusive

MODULES = "/opt/veriftools/node/node_modules"
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vscode")
RULE = ("vscode: each execution is one random session of the real extension with a simulated editor and a scripted daemon: typing, "
        "edits of the daemon (also outdated ones), files opened, compared and closed, all messages between editor, extension and daemon "
        "delayed at random. Counted as distinct and non-trivial: sessions whose sequence of actions differs from all others of the same process.")


def bundle(d):
    out = os.path.join(d, "extension.js")
    r = subprocess.run([os.path.join(MODULES, ".bin/esbuild"), "/repo/vscode-plugin/src/extension.ts", "--bundle", "--platform=node", "--format=cjs",
                        "--external:vscode", "--external:vscode-jsonrpc", "--external:vscode-jsonrpc/node", "--log-level=warning", "--outfile=" + out],
                       env=common.clean_env(NODE_PATH=MODULES), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode != 0:
        raise Inconclusive(f"the extension cannot be bundled: {r.stdout[-1500:]}")
    return out


CURSORS = ("vscode cursors: each execution is one random session of the real extension with a simulated editor and a scripted daemon: selections "
           "of the user, cursors of three others, files shown, hidden, opened and closed, texts changed from both sides; all messages delayed at random. "
           "Counted as distinct and non-trivial: sessions whose sequence of actions differs from all others of the same process.")


def run(res, sessions, seconds, workers=8, mode="texts"):
    name = "vscode" if mode == "texts" else "vscode " + mode
    d = common.scratch("verif-vscode-")
    b = bundle(d)

    def some(i):
        n = sessions // workers
        out = os.path.join(d, f"out-{i}.json")
        os.mkdir(os.path.join(d, f"s{i}"))
        try:
            r = subprocess.run(["node", os.path.join(HERE, "driver.js"), b, out, str(common.seed()), str(i * n), str((i + 1) * n), str(seconds), os.path.join(d, f"s{i}"), mode],
                               env=common.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds * 2 + 60)
        except subprocess.TimeoutExpired:
            return f"process {i} did not finish in time", None
        if not os.path.exists(out):
            return f"process {i} ended with {r.returncode}: {r.stdout[-1500:]}", None
        return None, json.load(open(out))

    part = {"sessions": 0, "distinct": 0, "observed": {}}
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for problem, o in ex.map(some, range(workers)):
            if problem:
                res.inconclusive.append(name + ": " + problem)
                continue
            part["sessions"] += o["sessions"]
            part["distinct"] += o["distinct"]
            for k, n in o["counts"].items():
                part["observed"][k] = part["observed"].get(k, 0) + n
            for h in o["harness"]:
                res.inconclusive.append(name + ": " + h[:1500])
            for s in o["samples"][:1]:
                res.sample({name: s}, limit=4)
            for v in o["violations"]:
                res.violation("vscode/" + v["sig"], v["what"], v["trace"])
    res.evaluations += part["sessions"]
    res.distinct += part["distinct"]
    res.rules.append(RULE if mode == "texts" else CURSORS)
    res.parts[name] = part
