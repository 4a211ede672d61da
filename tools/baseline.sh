#!/bin/bash
# regenerate specs/names.txt and specs/baseline.json from /repo (run by hand after changing specs or fixing /repo)
set -e
W=$(mktemp -d)
RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR=$W/t cargo +nightly rustc --offline --manifest-path /repo/Cargo.toml --lib --profile dev -- -Zunpretty=expanded > $W/exp.rs 2> /dev/null
X=${EXTRACT:-/tmp/x/extgt/debug/extract}
rm -f /verif/specs/names.txt
$X $W/exp.rs /verif/specs $W/out.rs $W/map.json --names
python3 - $W/map.json <<'P'
import json, sys
m = json.load(open(sys.argv[1]))
d = {f['key']: dict(spec=f['spec'], loops=f['loops'], closures=f['closures'], calls=sorted(set(f['calls'])), hash=f['hash']) for f in m['fns']}
with open('/verif/specs/baseline.json', 'w') as o:
    o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v, sort_keys=True)) for k, v in sorted(d.items())) + '\n}\n')
P
rm -rf "$W"
