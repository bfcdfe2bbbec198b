#!/bin/bash
# mk.sh FILE.py ID OUT.json: dump of the repository with one edit applied
set -e
d=/tmp/mk.$$; rm -rf $d; mkdir -p $d
(cd /repo && git archive HEAD | tar x -C $d; cp Cargo.lock $d/ 2>/dev/null || true)
python3 - "$1" "$2" $d <<'P'
import sys; sys.path.insert(0,'/verif/dev'); ns={}
exec(open(sys.argv[1]).read(),ns)
for e in ns["EDITS"]:
    if e[0]==sys.argv[2]:
        for f,o,n in e[2]:
            p=sys.argv[3]+"/"+f; s=open(p).read(); assert o in s,o; open(p,"w").write(s.replace(o,n,1))
P
w=/tmp/mkw.$$; mkdir -p $w; k=$(sha256sum /verif/driver/main.rs | cut -c1-16); cp /verif/.work/mirdump-$k $w/
VERIF_REPO=$d VERIF_WORK=$w /verif/tools/dump.sh $3
rm -rf $d $w
