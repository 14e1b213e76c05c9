"""mk(id, prop, [(file, old, new)], demo, needs, breaks): writes /verif/seeded/<id>; run(ids): validates"""
import os, subprocess, json, sys, time
S='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def mk(id, prop, edits, demo, needs, breaks):
    assert sh("git -C /repo status --porcelain").stdout==b"", "dirty"
    d=os.path.join(S,id); os.makedirs(d, exist_ok=True)
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
        diff=sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0: property holds; nonzero: broken\nhere="$(cd "$(dirname "$0")" && pwd)"\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\ncd "$W"\nPYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 timeout 200 /opt/venv-pypy/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(demo.lstrip())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
    print("made",id)
def run(ids, tests=True, check=True):
    res=[]
    for id in ids:
        d=os.path.join(S,id); meta=json.load(open(d+'/meta.json'))
        sh("bash /opt/vp/build.sh")
        d0=sh("bash %s/demo.sh"%d, cwd='/repo')
        r={"id":id,"prop":meta["property"],"demo_clean":d0.returncode}
        if d0.returncode: r["out0"]=d0.stdout.decode()[-500:]
        a=sh("git -C /repo apply %s/patch.diff"%d)
        if a.returncode: print(id,"APPLY FAILS",a.stdout.decode()); continue
        try:
            b=sh("bash /opt/vp/build.sh"); r["build"]=b.returncode
            dm=sh("bash %s/demo.sh"%d, cwd='/repo'); r["demo_bug"]=dm.returncode
            r["demo_out"]=dm.stdout.decode()[-200:]
            if tests:
                t=sh("bash /opt/vp/test.sh /tmp/sout.json")
                base=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sout.json'))
                r["tests_broken"]=sorted(set(base['stable'])-set(o['passed']))
            if check:
                t0=time.time()
                c=sh("VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s"%meta["property"], cwd='/verif')
                out=c.stdout.decode()
                r["check"]=c.returncode; r["t"]=round(time.time()-t0)
                r["viol"]=[l for l in out.split("\n") if "VIOLATION" in l][:1]
                if c.returncode not in (0,1): r["chkout"]=out[-500:]
        finally:
            sh("git -C /repo checkout -- .")
        ok = r["demo_clean"]==0 and r["demo_bug"]!=0 and not r.get("tests_broken") and (not check or r["check"]==1)
        print("OK " if ok else "BAD", json.dumps(r), flush=True); res.append(r)
    sh("bash /opt/vp/build.sh")
    return res
if __name__=="__main__":
    run(sys.argv[1:] or sorted(os.listdir(S)))
