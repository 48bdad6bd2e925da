export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
b() { (cd /verif/engine && go build -o /verif/bin/symgo .); }
k() { /verif/bin/symgo check "$@" 2>&1 | cut -c1-400 | head -${N:-40}; }
