#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree. See ../DESIGN.md."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    import props
    t0 = time.time()
    spec = props.SPECS[prop]
    res = common.Result(prop)
    try:
        for part in spec["parts"]:
            try:
                part(res, common.tier())
            except common.Inconclusive as e:
                res.inconclusive.append(str(e))
        code = common.finish(res, spec.get("level", "exploration"), t0, spec.get("assumptions", []))
    finally:
        common.remove_scratch()
    sys.exit(code)


if __name__ == "__main__":
    main()
