#!/bin/bash
# k.sh PROPERTY [args]: Kani run with a summary.
. /opt/vp/env.sh; cd /verif/contracts; unset RUSTUP_TOOLCHAIN CARGO_PROFILE_DEV_DEBUG; export CARGO_INCREMENTAL=0
P=$1; shift
rm -f /tmp/k-$P.json
CARGO_TARGET_DIR=${KT:-/verif/.build/kani} timeout ${TMO:-1500} cargo kani --lib --no-default-features --features hooks,$P -j ${J:-8} --output-format terse -Z unstable-options -Z stubbing --harness-timeout ${HT:-300}s --export-json /tmp/k-$P.json "$@" > /tmp/k-$P.out 2>&1
python3 - $P <<'P'
import json,sys
try: d=json.load(open('/tmp/k-%s.json'%sys.argv[1]))
except Exception: print(open('/tmp/k-%s.out'%sys.argv[1]).read()[-3000:]); sys.exit()
st={x['harness_id']:x.get('cbmc_stats') or {} for x in d['cbmc']}
for r in d['verification_results']['results']:
    print(r['harness_id'],r['status'],'%.1fs'%(r['duration_ms']/1000),'symex %.1f solver %.1f'%(st.get(r['harness_id'],{}).get('runtime_symex_s') or -1,st.get(r['harness_id'],{}).get('runtime_decision_procedure_s') or -1))
    for c in [c for c in (r.get('checks') or []) if c['status'] not in('Success','Unreachable','Satisfied','Undetermined')][:6]:
        if 1: print('   ',c['status'],c['category'],c['description'][:100],c['location'])
P
