#!/bin/bash
# f.sh: shows the failures of the last t.sh.
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json'))
for f in d['failures']: print(f['contract'],f['at'],len(f['values'])); m=f['message']; i=m.find('DIM fd'); print(m[:300] if i>0 else m[:3000]); print(m[i:][:1800] if i>0 else ''); print(m[-300:])
P
