#!/usr/bin/env python3
"""mutrun.py FILE "CHECKS" [EVERY [FIRST]]: small changes of FILE (tools/mutate) that build and pass the tests, each run through
the checks until one reports a violation; prints what survives."""
import sys,os,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f,checks=sys.argv[1],sys.argv[2].split()
every=int(sys.argv[3]) if len(sys.argv)>3 else 1; first=int(sys.argv[4]) if len(sys.argv)>4 else 0
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
d='/tmp/mutrun-'+f.replace('/','-'); shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
subprocess.run(['go','build','-o','/tmp/mutate',V+'/tools/mutate/main.go'],env=env,cwd='/tmp',check=True)
ls=subprocess.run(['/tmp/mutate',d+'/'+f],capture_output=True,text=True).stdout.splitlines()
src=open(d+'/'+f,'rb').read()
n=caught=dead=0
for k,l in enumerate(ls):
    if k%every!=first: continue
    m=json.loads(l)
    if 'exchange with next' in m['What'] and not os.environ.get('EXCHANGE'): continue
    new=src[:m['At']]+m['New'].encode()+src[m['End']:]
    if new==src: continue
    open(d+'/'+f,'wb').write(new)
    r=subprocess.run('go build ./... && timeout 60 go test ./rfc1057 ./rfc1813 ./xdr',shell=True,env=env,capture_output=True,text=True,cwd=d)
    if r.returncode: dead+=1; continue
    n+=1; hit=None; why=[]
    for c in checks:
        r=subprocess.run([V+'/bin/symgo','check',c],env=dict(env,VERIF_REPO=d),capture_output=True,text=True)
        if r.returncode==1: hit=c; break
        why+=[x[:160] for x in r.stdout.splitlines() if 'INCON' in x or 'inconcl' in x or 'not encodable' in x and ' 0 not encodable' not in x][:2]
    if hit: caught+=1
    print('caught %s'%hit if hit else 'SURVIVES',k,m['What'].replace('\n',' ')[:150],' | '.join(why) if not hit else '',flush=True)
print(f,'built',n,'caught',caught,'rejected by build or tests',dead,flush=True)
shutil.rmtree(d)
