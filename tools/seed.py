#!/usr/bin/env python3
# usage: seed.py [id...]   (development tool; no check uses it)
# Builds /verif/seeded/<id> from the definitions in seeds/*.py, and confirms
# each: the patch applies, builds, passes the tests, the demonstration passes
# without and fails with it, and which checks report it.
import sys,os,subprocess,shutil,tempfile,json,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS=[]
def bug(id,prop,edits,demo,needs,breaks,dir=".",run="-run ZPVDemo",sh=None,files=None):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,dir=dir,run=run,sh=sh,files=files or {}))
for f in sorted(glob.glob(V+"/tools/seeds/*.py")): exec(open(f).read())
DEMO='''#!/bin/bash
# Exits 0 on the unchanged tree and nonzero with the change (cwd: the repository).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" >"$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 %s ./%s
'''
def sh(c,cwd,t=600,env=None):
    return subprocess.run(["bash","-c",". /opt/vp/env.sh;"+c],cwd=cwd,capture_output=True,text=True,timeout=t,env=env)
def main():
    want=sys.argv[1:]
    for s in SEEDS:
        if want and not any(w in s["id"] for w in want): continue
        d=tempfile.mkdtemp(prefix="seed",dir="/tmp"); r=d+"/repo"
        try:
            sh("git clone -q /repo %s"%r,"/tmp")
            for f,old,new in s["edits"]:
                t=open(r+"/"+f).read()
                assert t.count(old)==1,(s["id"],f,t.count(old),old)
                open(r+"/"+f,"w").write(t.replace(old,new))
            out=V+"/seeded/"+s["id"]; os.makedirs(out,exist_ok=True)
            patch=sh("git diff",r).stdout
            open(out+"/patch.diff","w").write(patch)
            open(out+"/meta.json","w").write(json.dumps(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),indent=1)+"\n")
            for n,t in s["files"].items(): open(out+"/"+n,"w").write(t)
            if s["sh"]: open(out+"/demo.sh","w").write(s["sh"])
            else:
                open(out+"/demo.sh","w").write(DEMO%(s["dir"],s["run"],s["dir"]))
                open(out+"/demo_test.go.txt","w").write(s["demo"])
            os.chmod(out+"/demo.sh",0o755)
            b=sh("gofmt -l %s; go build ./... && go vet . ./generate ./cmd/... 2>&1|tail -2; go test ./... 2>&1 | grep -E '^(---|FAIL|ok|panic)'"%" ".join(sorted({e[0] for e in s["edits"]})),r)
            demo=sh("bash %s/demo.sh"%out,r); 
            sh("git checkout -q -- .",r)
            base=sh("bash %s/demo.sh"%out,r)
            sh("git apply %s/patch.diff"%out,r)
            res=[]
            props=[s["prop"]] if not os.environ.get("ALL") else [json.loads(l)["id"] for l in open(V+"/properties.jsonl") if '"C' in l[:10]]
            for p in props:
                c=subprocess.run([V+"/bin/zpv","-repo",r,"-noevidence",p],capture_output=True,text=True)
                first=[l for l in c.stdout.split("\n")[1:] if l and not l.startswith("    ")]
                res.append("%s:%d %s"%(p,c.returncode,first[0][:160] if c.returncode==1 and first else ""))
            fails=re.findall(r"^(?:--- FAIL|FAIL|panic).*",b.stdout,re.M)
            print("%-22s tests:%s demo base:%d bug:%d | %s"%(s["id"],"ok" if not fails else fails,base.returncode,demo.returncode,"; ".join(res)),flush=True)
            if b.stderr.strip(): print("  build:",b.stderr[-500:])
            if "unformatted" in b.stdout: print(b.stdout)
            if base.returncode!=0: print("  BASE",(base.stdout+base.stderr)[-600:])
            if demo.returncode==0: print("  DEMO passes with the bug",demo.stdout[-300:])
        finally: shutil.rmtree(d)
main()
