#!/usr/bin/env python3
"""fastcheck.py ID: the quick check of ID, but with the design models' scenarios taken from a cache and only those
histories judged that differ from the ones recorded on the unchanged tree (developer helper for mutate.py; the
cache is made by the first run with the argument --base).  Prints the number of changed histories."""
import json, os, pickle, re, shutil, sys, time
sys.path.insert(0, "/verif/bin")
import check
from plan import PLAN

CACHE = "/verif/work/fast"


def main():
    prop, base = sys.argv[1], "--base" in sys.argv
    os.makedirs(CACHE, exist_ok=True)
    work = "/verif/work/fast-%s-%d" % (prop, os.getpid())
    os.makedirs(work)
    try:
        check.build()
        mc = os.path.join(CACHE, prop + ".scn")
        if os.path.exists(mc):
            scns = pickle.load(open(mc, "rb"))
        else:
            scns, _ = check.run_models(PLAN[prop], "quick", work)
            pickle.dump(scns, open(mc, "wb"))
        f = ""
        if scns:
            f = os.path.join(work, "scenarios")
            open(f, "w").write("\n".join(scns) + "\n")
        hist = check.drive(prop, "quick", 1, len(scns) + PLAN[prop]["cases"]["quick"], work, f)
        bf = os.path.join(CACHE, prop + ".base")
        if base:
            pickle.dump({h[0] for h in hist}, open(bf, "wb"))
            return 0
        old = pickle.load(open(bf, "rb"))
        new = [h for h in hist if h[0] not in old]
        n = len(new)
        new.sort(key=lambda h: hash(h[1]["id"]))
        for part in (new[:60], new[60:400], new[400:]):
            if part:
                bad, _, _ = check.validate(prop, part, work)
                if bad:
                    i, l, why = bad[0]
                    print("REJECT %s event %d: %s" % (part[i][1]["id"], l, why[:200]))
                    return 1
        print("changed %d" % n)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
