#!/usr/bin/env python3
"""Plants bugs: applies every change of tools/seedsrc/*.py to /repo, keeps those that build, pass the tests and
are shown by their demonstration, and (with --check) runs this property's check against them.
usage: mkseed.py [--check] [--keep-only-new] [ID...]"""
import glob, json, os, subprocess, sys, runpy

R, V = "/repo", "/verif"
BASE = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def demo(dirname):
    os.makedirs("/tmp/seeddemo", exist_ok=True)
    sh(f"rm -rf /tmp/seeddemo/d; cp -r {dirname} /tmp/seeddemo/d; rm -f /tmp/seeddemo/d/*.diff /tmp/seeddemo/d/meta.json")
    return sh("timeout 300 bash /tmp/seeddemo/d/demo.sh", cwd=R)


def tests():
    if sh("bash /opt/vp/build.sh").returncode:
        return "build failed"
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    o = json.load(open("/tmp/seed_out.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    st = b.get("stable") or b.get("passed")
    miss = [t for t in st if t not in set(o["passed"])]
    return f"tests fail: {miss[:3]} ({len(miss)})" if miss else ""


def orig_lines(files):
    """line numbers (in HEAD) that come from the original repository"""
    out = {}
    for f in files:
        r = sh(f"git -C {R} blame -s --abbrev=40 {f}").stdout.splitlines()
        out[f] = [l.lstrip("^").startswith(BASE[:30]) for l in r]
    return out


def main():
    args = sys.argv[1:]
    check = "--check" in args
    ids = [a for a in args if not a.startswith("--")]
    seeds = []
    for f in sorted(glob.glob(f"{V}/tools/seedsrc/*.py")):
        seeds += runpy.run_path(f)["SEEDS"]
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo not clean"
    for s in seeds:
        if ids and s["id"] not in ids and s["prop"] not in ids:
            continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds here; nonzero: it is broken\n'
                                        'PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = None
        r = demo(d)
        if r.returncode:
            bad = "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:]
        try:
            if not bad:
                for f, old, new in s["edits"]:
                    p = f"{R}/dissect/cstruct/{f}"
                    t = open(p).read()
                    assert t.count(old) == 1, (s["id"], f, old, t.count(old))
                    open(p, "w").write(t.replace(old, new))
                diff = sh(f"git -C {R} diff").stdout
                # lines removed must be original ones
                o = orig_lines([f"dissect/cstruct/{f}" for f, _, _ in s["edits"]]) if False else None
                open(d + "/patch.diff", "w").write(diff)
                bad = tests() or None
                if not bad:
                    r = demo(d)
                    if r.returncode == 0:
                        bad = "demo does not fail with the change"
                if not bad:
                    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                    base = "".join(sh(f"git -C {R} show {BASE}:dissect/cstruct/{f}").stdout for f, _, _ in s["edits"])
                    no = [l for l in removed if l + "\n" not in base]
                    if removed and len(no) == len(removed):
                        bad = "no original line changed: " + repr(no[:2])
                    elif not removed:
                        print("   (only adds lines)")
                if not bad and check:
                    c = sh(f"timeout 900 ./check {s['prop']}", cwd=V)
                    hit = f"VIOLATION property={s['prop']}" in c.stdout and c.returncode == 1
                    print(f"{s['id']}: {'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode}", flush=True)
                    if not hit:
                        print("   ", c.stdout[-300:])
                elif not bad:
                    print(f"{s['id']}: ok", flush=True)
        except AssertionError as e:
            bad = "edit: " + repr(e)
        finally:
            sh(f"git -C {R} checkout -- .")
        if bad:
            print(f"{s['id']}: REJECTED {bad}", flush=True)
            sh(f"rm -rf {d}")


main()
