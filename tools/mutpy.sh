#!/bin/bash
# mutpy.sh FILE OLD NEW: run C27 on a copy of the client with OLD replaced by NEW
t=$(mktemp -d /tmp/mutpyXXXX); mkdir -p $t/r/rpc/comfo $t/root/contracts; cp -r /repo/python $t/r/; cp /repo/rpc/comfo/comfo.proto $t/r/rpc/comfo/
cp /verif/contracts/client.py $t/root/contracts/; mkdir $t/root/replay; cp /verif/replay/run.sh /verif/replay/client_replay.py $t/root/replay/; cp -r /verif/pyver $t/root/; cp /verif/env.sh $t/root/
python3 - "$t/r/$1" "$2" "$3" <<'PY'
import sys
p,o,n=sys.argv[1:]
s=open(p).read(); assert o in s,(o,p); open(p,'w').write(s.replace(o,n,1))
PY
[ $? = 0 ] && (cd $t/root; python3-vt -B -m pyver.check -root $t/root -dir $t/r | cut -c1-400 | tail -4)
/bin/rm -rf "$t"
