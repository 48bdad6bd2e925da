#!/usr/bin/env python3
"""refactor.py [NAME...]: behaviour-preserving edits of tools/refactors against the checks (see README there)."""
import sys,os,subprocess,shutil,glob,time
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H)
names=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(H+'/refactors/*.py'))
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
for n in names:
    d='/tmp/refactor-'+n
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
    def e(f,o,w,c=1):
        s=open(f).read(); assert o in s,(n,f,o)
        open(f,'w').write(s.replace(o,w,c) if c else s.replace(o,w))
    os.chdir(d); g={'e':e}
    exec(open(H+'/refactors/'+n+'.py').read(),g)
    subprocess.run('/opt/vp/gobin/goyacc -o xdr.go -p xdr xdr.y >/dev/null; gofmt -l *.go rfc1057 xdr',shell=True,env=env)
    r=subprocess.run('go build ./... && go vet . ./rfc1057 ./xdr && go test ./rfc1057 ./rfc1813 ./xdr',shell=True,env=env,capture_output=True,text=True)
    if r.returncode: print(n,'does not build',(r.stdout+r.stderr)[:600]); continue
    for c in os.environ.get('CHECKS',g['CHECKS']).split():
        t=time.time()
        r=subprocess.run([V+'/bin/symgo','check',c],env=dict(env,VERIF_REPO=d),capture_output=True,text=True)
        o=[l[:300] for l in r.stdout.splitlines() if 'note:' not in l]
        bad=r.returncode!=0 or any('bound' in l or 'INCON' in l or 'inconclusive' in l for l in o)
        print(n,c,'rc',r.returncode,'%.0fs'%(time.time()-t),'' if not bad else '\n   '+'\n   '.join(o[-4:]),flush=True)
    os.chdir('/'); shutil.rmtree(d)
