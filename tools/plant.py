#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy (/tmp/pl), and runs the check of their property against them.

plant.py ID...        build, stable tests, demo on the changed tree; demo on the unchanged tree; check
plant.py --check ID.. only the check
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = os.environ.get("PL", "/tmp/pl")
R = PL + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not os.path.exists(R):
        os.makedirs(PL, exist_ok=True)
        sh("cp -a /repo %s" % R)
        sh("mkdir -p {0}/vp && cp /opt/vp/*.sh /opt/vp/*.py {0}/vp/ && sed -i 's#/opt/vp#{0}/vp#g; s#/repo#{0}/repo#g' {0}/vp/*".format(PL))
    sh("git -C {0} fetch -q /repo HEAD; git -C {0} reset -q --hard FETCH_HEAD; git -C {0} clean -fdq -e target".format(R))
    os.makedirs(PL + "/verif", exist_ok=True)
    sh("rsync -a --delete --exclude .git --exclude work --exclude seeded --exclude harness/target {1}/ {0}/verif/ || "
       "(cd {1} && tar cf - --exclude=.git --exclude=./work --exclude=./seeded --exclude=./harness/target . | (cd {0}/verif && tar xf -))".format(PL, V))
    sh("sed -i 's#\"/repo/#\"{0}/#' {1}/verif/harness/Cargo.toml".format(R, PL))
    if not os.path.exists(PL + "/verif/harness/target"):
        sh("cp -a {1}/harness/target {0}/verif/harness/target".format(PL, V))


def demo(d):
    scratch = PL + "/demo"
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(d, scratch)
    for f in os.listdir(scratch):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(scratch, f))
    p = scratch + "/demo.sh"
    s = open(p).read().replace("/opt/vp", PL + "/vp").replace("/repo", R)
    open(p, "w").write(s)
    return sh("timeout 280 bash " + p, cwd=R)


def main():
    args = sys.argv[1:]
    only_check = "--check" in args
    ids = [a for a in args if not a.startswith("--")]
    prepare()
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        res = []
        if not only_check:
            r = demo(d)
            res.append("demo-clean:%d" % r.returncode)
            if r.returncode:
                print(r.stdout[-3000:])
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        if a.returncode:
            print(i, "patch does not apply", a.stdout)
            continue
        try:
            if not only_check:
                b = sh("bash %s/vp/build.sh" % PL)
                res.append("build:%d" % b.returncode)
                if b.returncode:
                    print(b.stdout[-3000:])
                    continue
                r = demo(d)
                res.append("demo-bug:%d" % r.returncode)
                sh("bash {0}/vp/test.sh {0}/o.json".format(PL))
                o = json.load(open(PL + "/o.json"))
                stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                lost = sorted(stable - set(o["passed"]))
                res.append("lost:%s" % lost)
            c = sh("timeout 900 python3 check.py " + meta["property"], cwd=PL + "/verif")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("check %s:%d %s" % (meta["property"], c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED"))
            open(PL + "/last-%s.log" % i, "w").write(c.stdout)
        finally:
            sh("git -C {0} checkout -q -- . ; git -C {0} clean -fdq -e target".format(R))
            print(i, *res, flush=True)


main()
