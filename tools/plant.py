#!/usr/bin/env python3
"""Development aid: validates the planted bugs of /verif/seeded in scratch copies of /repo.
usage: tools/plant.py [--no-check] [--tier quick] [--all-checks] [ID...]
For every bug: the demonstration passes on the unchanged copy, the patch applies, everything compiles, the stable tests
pass, the demonstration fails, and the check of its property reports it."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests(copy, work):
    rep = os.path.join(work, "reports")
    script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy).replace("/opt/vp/reports", rep)
    open(os.path.join(work, "test.sh"), "w").write(script)
    out = os.path.join(work, "tests.json")
    sh("bash {}/test.sh {}".format(work, out))
    passed = set(json.load(open(out))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)


def build(copy, work):
    script = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + copy).replace("PYTHONPATH=/repo", "PYTHONPATH=" + copy)
    open(os.path.join(work, "build.sh"), "w").write(script)
    return sh("bash {}/build.sh".format(work))


def one(bug, opts):
    src = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(src, "meta.json")))
    work = tempfile.mkdtemp(prefix="plant-")
    msgs = []
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo_dir = os.path.join(work, "demo")
        shutil.copytree(src, demo_dir, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc, out = sh("bash {}/demo.sh".format(demo_dir), cwd=copy, timeout=300)
        if rc != 0:
            msgs.append("DEMO FAILS ON UNCHANGED TREE rc={}\n{}".format(rc, out[-800:]))
        rc, out = sh("git apply --whitespace=nowarn {}/patch.diff".format(src), cwd=copy)
        if rc != 0:
            return bug, meta, "DOES NOT APPLY " + out, None
        rc, out = build(copy, work)
        if rc != 0:
            msgs.append("BUILD FAILS " + out[-500:])
        missing = tests(copy, work)
        if missing:
            msgs.append("TESTS FAIL {}".format(missing[:4]))
        rc, out = sh("bash {}/demo.sh".format(demo_dir), cwd=copy, timeout=300)
        if rc == 0:
            msgs.append("DEMO PASSES WITH THE PATCH")
        sh("git checkout -q -- . && git clean -fdq", cwd=copy)
        sh("git apply --whitespace=nowarn {}/patch.diff".format(src), cwd=copy)
        caught = None
        if not opts.no_check:
            env = dict(os.environ, AUCTIONS_UNDER_TEST=copy, VERIF_EVIDENCE_DIR=os.path.join(work, "ev"), VERIF_SEED=str(opts.seed), VERIF_TIER=opts.tier)
            ids = [meta["property"]]
            if opts.all_checks:
                ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
            caught = []
            for pid in ids:
                rc, out = sh("{}/check {} {}".format(HERE, pid, opts.tier), env=env)
                if rc == 1 and "VIOLATION property={} ".format(pid) in out:
                    caught.append(pid)
                    if opts.verbose:
                        msgs.append(out[:600])
                elif rc != 0:
                    msgs.append("check {} rc={}: {}".format(pid, rc, out[-600:]))
        return bug, meta, "\n".join(msgs), caught
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("-v", "--verbose", action="store_true")
    opts = ap.parse_args()
    ids = opts.ids or sorted(os.path.basename(d) for d in glob.glob(os.path.join(HERE, "seeded", "*")))
    missed = 0
    with ThreadPoolExecutor(opts.jobs) as ex:
        for bug, meta, msg, caught in ex.map(lambda b: one(b, opts), ids):
            state = "" if caught is None else ("caught by " + ",".join(caught) if caught else "MISSED")
            missed += caught == []
            print("{} [{}] {} {}".format(bug, meta["property"], state, msg), flush=True)
    print("{} bugs, {} missed".format(len(ids), missed))
