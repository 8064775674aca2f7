#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N]   or   check.py --replay FILE"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from sim import confs, core, props
    if a.replay:
        d = json.load(open(a.replay))
        c = props.campaign(d["property"], d["seed"], "quick")
        c.known = []
        vs = c.reproduce(d["job"])
        c.pool.close()
        for _, v in vs[:3]:
            print(f"violation: {v[0]}: {v[1]}")
        if vs:
            print(f"VIOLATION property={d['property']} replay={a.replay}")
            return 1
        print("the recorded execution no longer violates the property")
        return 0
    c = props.campaign(a.prop, a.seed, a.tier)
    try:
        return props.CHECKS[a.prop](c)
    finally:
        c.pool.close()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
