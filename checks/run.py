#!/usr/bin/env python3
"""run.py CXX (quick|thorough)   run the check of a property
   run.py replay FILE            replay a violation"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import table


def replay(path):
    d = json.load(open(path))
    if d["kind"] in ("case", "range"):
        b = common.cargo_build(d["bin"], d["profile"], d.get("features"))
        os.environ["VERIF_SEED"] = str(d["seed"])
        tmp = common.Tmp()
        try:
            if d["kind"] == "range":
                t, fail = common.run_cases(d["case_prop"], b, d["range"][0], d["range"][1], tmp, "r", 3600)
                print(fail["message"] if fail else "PASS")
                return 1 if fail else 0
            rc, out = common.try_tape(b, d["case_prop"], d["tape"], tmp, "r", log=True)
            print(out)
            if rc == 0:
                print("held on this case")
                return 0
            if rc is None:
                print("the case does not end")
            elif rc < 0:
                print(common.crash_name(rc))
            return 1
        finally:
            tmp.close()
    return table.CHECKS[d["property"]].replay(d)


def main(a):
    if len(a) == 3 and a[1] == "replay":
        return replay(a[2])
    prop, tier = a[1], a[2]
    c = table.CHECKS[prop]
    # The evidence of an earlier run says nothing about this one.
    try:
        os.remove(os.path.join(common.VERIF, "evidence", prop + ".json"))
    except FileNotFoundError:
        pass
    try:
        return c.run(tier)
    except common.CheckError as e:
        print("%s: no answer: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
