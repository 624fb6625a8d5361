#!/usr/bin/env python3
"""plant.py SPEC.py : build and confirm planted bugs.
SPEC.py defines BUGS = [dict(id, prop, needs, breaks, file, edits=[(old,new[,count])...], demo=<Go source of a test file with func TestDemo>)]
For each: scratch copy, patch, build, stable tests, demo on both trees; kept as seeded/<id>/ if all is confirmed."""
import sys, os, json, subprocess, shutil, tempfile
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
DEMO = '''#!/bin/sh
# Runs demo_test.go inside the package under test (cwd) through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
export DEMO_SCRATCH="$t"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' .
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
own = subprocess.run(["git","-C","/repo","rev-list","77c7c04..HEAD"],capture_output=True,text=True).stdout.split()
own = set(own)
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    w = tempfile.mkdtemp(prefix="plant_")
    r = w + "/repo"
    try:
        subprocess.run(["git","clone","-q","--shared","/repo",r],check=True)
        bad = None
        for f, *ed in b["edits"]:
            s = open(r+"/"+f).read()
            old, new = ed[0], ed[1]
            n = ed[2] if len(ed) > 2 else 1
            if s.count(old) < 1 or (len(ed) < 3 and s.count(old) != 1):
                bad = "old text occurs %d times in %s: %r" % (s.count(old), f, old); break
            if n > 0:   # n-th occurrence
                i = -1
                for _ in range(n): i = s.index(old, i+1)
                s = s[:i] + new + s[i+len(old):]
            open(r+"/"+f,"w").write(s)
        if bad: print(b["id"], "EDIT", bad); continue
        p = run(["gofmt","-l","."], r)
        diff = run(["git","diff"], r).stdout
        # every removed line must be an original one
        files = sorted(set(e[0] for e in b["edits"]))
        mine = False
        for f in files:
            cur = None
            for l in run(["git","diff","-U0","--",f], r).stdout.splitlines():
                if l.startswith("@@"):
                    h = l.split()[1][1:]
                    st, cnt = (h.split(",")+["1"])[:2]
                    st, cnt = int(st), int(cnt)
                    for k in range(st, st+cnt):
                        bl = run(["git","blame","-l","-s","-L","%d,%d"%(k,k),"HEAD","--",f], r).stdout.split()[0].lstrip("^")
                        if any(o.startswith(bl[:39]) for o in own): mine = True
        if mine: print(b["id"], "WARN touches lines of my own commits")
        p = run(["go","build","./..."], r)
        if p.returncode: print(b["id"], "BUILD", p.stdout[:500]); continue
        d = verif + "/seeded/" + b["id"]
        dd = w + "/demo"; os.makedirs(dd)
        open(dd+"/demo.sh","w").write(DEMO); open(dd+"/demo_test.go","w").write(b["demo"].lstrip())
        p1 = run(["sh",dd+"/demo.sh"], r)
        p0 = run(["sh",dd+"/demo.sh"], "/repo")
        if p0.returncode != 0 or p1.returncode == 0:
            print(b["id"], "DEMO clean", p0.returncode, "patched", p1.returncode, (p0.stdout if p0.returncode else p1.stdout)[-800:]); continue
        if "build failed" in p1.stdout: print(b["id"], "DEMO does not build", p1.stdout[-500:]); continue
        res = w + "/res.json"
        t = open("/opt/vp/test.sh").read().replace("cd /repo","cd "+r).replace("/repo/", r+"/").replace("/opt/vp"+"/results","/opt/vp/results")
        open(w+"/t.sh","w").write(t)
        p = run(["bash",w+"/t.sh",res], r)
        try: js = json.load(open(res))
        except Exception as e: print(b["id"], "TESTS gave no result", p.stdout[-500:]); continue
        passed = set(js.get("passed") or js.get("pass") or [])
        miss = stable - passed
        if miss: print(b["id"], "TESTS fail", sorted(miss)); continue
        os.makedirs(d, exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        shutil.copy(dd+"/demo.sh", d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
        shutil.copy(dd+"/demo_test.go", d+"/demo_test.go")
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]}, open(d+"/meta.json","w"), indent=1)
        print(b["id"], "kept")
    finally:
        shutil.rmtree(w, ignore_errors=True)
