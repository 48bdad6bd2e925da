. /tmp/env.sh
# try NAME FILE PROP <<python (s is the file text)
try() { D=$(mktemp -d /tmp/mutXXXX); cp -a /repo $D/repo; (echo "f='$D/repo/$2'; s=open(f).read(); o=s"; cat; echo "
assert s!=o, 'no change'
open(f,'w').write(s)") | python3 - ; (cd $D/repo && go build ./xdr ./rfc1057 ./rfc1813 2>&1 || echo BUILDFAIL); for p in $3; do echo "--- $1 ($p)"; VERIF_REPO=$D/repo /verif/bin/symgo check $p $4 $5 2>&1 | cut -c1-300 | tail -${N:-3}; done; rm -rf $D; }
