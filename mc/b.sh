#!/bin/bash
# dev helper: b.sh cNN [args]  build and run one checker
export CARGO_TARGET_DIR=/verif/target
b=$1; shift
rm -f /tmp/o.json; cd /verif/mc && cargo build --offline --release --bin $b 2>&1 | grep -E "^(error|warning: unused)" -A9
time MC_VERBOSE=1 $CARGO_TARGET_DIR/release/$b --out /tmp/o.json "$@"
python3 -c "
import json;o=json.load(open('/tmp/o.json'))
if 'hang' in o: print(o)
for f in o['fails'][:12]: print(f)
print('VACUOUS',o['vacuous'],'FAILS',len(o['fails']))
for s in o['samples']:
    if not s.startswith('repeated'): print('  ',s[:300])"
