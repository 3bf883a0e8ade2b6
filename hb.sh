#!/bin/bash
# dev helper: build + run one harness bin: hb.sh bin probe budget [tier]
cd /verif/harness && RUSTFLAGS="--cfg louis_verif -Awarnings" LOUIS_VERIF_PROBE=/verif/harness/probes/${2:-none}.rs CARGO_TARGET_DIR=/verif/build/target cargo build --offline -q --bin $1 || exit 1
/verif/build/target/debug/$1 ${SEED:-1} ${3:-10} ${4:-quick} /tmp/$1.json && python3 - <<P
import json
j=json.load(open('/tmp/$1.json'))
print(j['evaluations'],j['distinct_nontrivial'])
for f in j['failures']: print('KEY',f['key']);print(f['input'][:1500]);print('  =>',f['detail'][:900])
P
