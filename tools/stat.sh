#!/bin/sh
# development tool: keeps the recorded traces of one quick run and counts events by op/kind/result
cd "$(dirname "$0")/.." && sed 's/shutil.rmtree(self.scratch, ignore_errors=True)/print("SCRATCH", self.scratch)/' vf/core.py > /tmp/core.py && cp vf/run.py vf/props.py /tmp/ && sed -i "s#^ROOT = .*#ROOT = '/verif'#" /tmp/core.py && python3 /tmp/run.py "$1" | tee /tmp/stat.out | cut -c1-800
D=$(grep SCRATCH /tmp/stat.out | cut -d' ' -f2)
cat $D/*/trace* | python3 -c "
import sys,json,collections
c=collections.Counter()
for l in sys.stdin:
    e=json.loads(l); c[e.get('op'),e.get('kind') or '',e.get('res') if isinstance(e.get('res'),str) else '',str(e.get('msg',''))[:50]]+=1
for k,v in sorted(c.items(),key=str): print(v,*k)"
rm -rf "$D"
