#!/bin/bash
# mut.sh PROP file 'python-old' 'python-new' : apply to scratch copy and check
. /tmp/env.sh
D=$(mktemp -d /tmp/mutXXXX); cp -a /repo $D/repo
python3 - "$D/repo/$2" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:4]; s=open(f).read()
if o not in s: print("PATTERN NOT FOUND"); sys.exit(1)
open(f,'w').write(s.replace(o,n,1))
P
(cd $D/repo && go build ./xdr ./rfc1057 ./rfc1813) || echo BUILD FAIL
VERIF_REPO=$D/repo /verif/bin/symgo check $1 $5 2>&1 | cut -c1-300 | tail -${N:-4}
rm -rf $D
