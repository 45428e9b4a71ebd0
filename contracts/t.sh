#!/bin/bash
# t.sh PROPERTY...: quick native run.
. /opt/vp/env.sh; cd /verif/contracts; export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
CARGO_TARGET_DIR=/verif/.build/native cargo build --offline --locked --quiet --bin replay || exit 1
for p in "$@"; do s=$(date +%s.%N); /verif/.build/native/debug/replay search $p ${SEED:-1} ${SECS:-60} /tmp/o.json /tmp/slots
python3 - $p $s <<'P'
import json,sys,time
d=json.load(open('/tmp/o.json'))
print(sys.argv[1], '%.1fs'%(time.time()-float(sys.argv[2])), ' '.join('%s:%d'%(k.split('::',1)[1],v) for k,v in d['executions'].items()))
for f in d['failures']: print('FAIL',f['contract'],f['at'],len(f['values']));print(f['message'])
P
done
