#!/usr/bin/env python3
"""mkseed.py DIR: DIR/seed.py defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO files {name: text}; verifies and installs."""
import sys,os,subprocess,json,shutil,tempfile
def sh(cmd,cwd,**kw): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**kw)
RUN='''#!/bin/bash
# Exits 0 when the behaviour is right, 1 when it is not.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
echo '{"Replace":{"'"$PWD"'/zz_demo/main.go":"'"$here"'/main.go.txt"}}' >"$o"
timeout 200 go run -overlay "$o" ./zz_demo
rc=$?
rm -f "$o"
exit $rc
'''
# start of a demonstration about the generator: builds it as $t/gen and goes to the scratch directory $t
GEN='''#!/bin/bash
# Exits 0 when the behaviour is right, 1 when it is not.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
go build -o "$t/gen" . || exit 3
cd "$t" || exit 3
'''
for f in sys.argv[1:]:
    g={'RUN':RUN,'GEN':GEN}
    exec(open(f).read(),g)
    d=tempfile.mkdtemp(prefix='seed',dir='/tmp'); r=d+'/repo'
    shutil.copytree('/repo',r,symlinks=True)
    try:
        dst='/verif/seeded/'+g['ID']; os.makedirs(d+'/s')
        files=dict(g.get('DEMO',{}))
        if 'demo.sh' not in files: files['demo.sh']=RUN
        if 'MAIN' in g: files['main.go.txt']=g['MAIN']
        for n,t in files.items():
            open(d+'/s/'+n,'w').write(t)
        os.chmod(d+'/s/demo.sh',0o755)
        a=sh(d+'/s/demo.sh',r)
        if a.returncode!=0: print(g['ID'],'DEMO FAILS ON BASE',a.stdout[-800:],a.stderr[-800:]); continue
        ok=True
        for fn,old,new in g['EDITS']:
            s=open(r+'/'+fn).read()
            if s.count(old)<1: print(g['ID'],'NO MATCH',fn,old); ok=False; break
            if s.count(old)>1 and not g.get('MULTI'): print(g['ID'],'MULTI',s.count(old)); ok=False;break
            open(r+'/'+fn,'w').write(s.replace(old,new,1))
        if not ok: continue
        diff=sh('git diff',r).stdout
        if any(e[0]=='xdr.y' for e in g['EDITS']):
            y=sh('/opt/vp/gobin/goyacc -o xdr.go -p xdr xdr.y',r)
            if y.returncode: print(g['ID'],'GOYACC',y.stderr); continue
        b=sh('gofmt -l . ; go vet ./xdr ./rfc1057 ./rfc1813',r)
        if b.stdout.strip(): print(g['ID'],'gofmt',b.stdout)
        p=sh('go build ./... && go test ./... 2>&1 | tail -20',r)  # xdr.y edits: regenerate xdr.go in r first
        if p.returncode or 'FAIL' in p.stdout: print(g['ID'],'BUILD/TEST',p.stdout[-800:],p.stderr[-800:]); continue
        a=sh(d+'/s/demo.sh',r)
        if a.returncode==0: print(g['ID'],'DEMO PASSES WITH PATCH',a.stdout[-500:]); continue
        print(g['ID'],'ok; demo says:',(a.stdout+a.stderr).strip()[-160:].replace('\n',' | '))
        shutil.rmtree(dst,ignore_errors=True); os.makedirs(dst)
        for n in os.listdir(d+'/s'): shutil.copy(d+'/s/'+n,dst+'/'+n)
        open(dst+'/patch.diff','w').write(diff)
        json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(dst+'/meta.json','w'),indent=1)
    finally:
        shutil.rmtree(d)
