#!/usr/bin/env python3
"""usage: mut.py LIST.py [ID...]   (development only)
LIST.py defines muts = [(id, prop, file, [(old, new), ...]), ...].  Each is applied to a
scratch copy of /repo, built, run through the repository's tests, and checked."""
import sys,os,subprocess,shutil,re
g={}
exec(open(sys.argv[1]).read(),g)
only=sys.argv[2:]
wt='/tmp/mutwt'
subprocess.run(['rm','-rf','/tmp/mutwt'])
shutil.copytree(os.environ.get('MUT_BASE','/repo'),wt,symlinks=True)
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off')
for id,prop,*rest in g['muts']:
    if only and id not in only: continue
    edits=rest[0] if isinstance(rest[0],list) else [(rest[0],rest[1])]
    subprocess.run(['git','checkout','-q','--','.'],cwd=wt)
    ok=True
    for f,ps in edits:
        p=os.path.join(wt,f); s=open(p).read()
        for a,b in ps:
            if s.count(a)!=1:
                print(id,'EDIT',f,s.count(a),repr(a)); ok=False
            s=s.replace(a,b)
        open(p,'w').write(s)
    if not ok: continue
    r=subprocess.run('. /opt/vp/env.sh; go build ./... && go vet . ',shell=True,cwd=wt,capture_output=True,text=True)
    if r.returncode: print(id,'BUILD',r.stderr[:300]); continue
    r=subprocess.run('. /opt/vp/env.sh; go test ./... 2>&1 | grep -c "^FAIL\|^--- FAIL\|panic:"',shell=True,cwd=wt,capture_output=True,text=True)
    tests='tests-fail' if int(r.stdout or 0) else 'tests-pass'
    res=[]
    for pr in prop.split(','):
        r=subprocess.run(['bash','/verif/tools/dev.sh',wt,pr],capture_output=True,text=True)
        m=re.search(r'violation class=(.*)',r.stdout)
        res.append(f'{pr}:'+('caught '+m.group(1)[:110] if m else f'MISSED rc={r.returncode} {r.stderr[-200:]}'))
    print(id,tests,' | '.join(res),flush=True)
