#!/bin/bash
# Same seed, same execution: the digests of all cases of each property must be
# the same whatever the number of workers and the hash seed of the interpreter.
# Usage: tools/determinism.sh [PROPERTY...]      (about one minute each)
cd "$(dirname "$0")/.." || exit 2
export VERIF_NO_EVIDENCE=1 VERIF_SEED="${VERIF_SEED:-1}"
d=$(mktemp -d /tmp/determinism.XXXXXX)
trap 'rm -rf "$d"' EXIT
[ $# -gt 0 ] || set -- $(python3 -c "
import json
print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
rc=0
for p in "$@"; do
    python3 check.py "$p" --tier quick --workers 8 --digests "$d/a" >/dev/null
    VERIF_HASHSEED=12345 python3 check.py "$p" --tier quick --workers 3 \
        --digests "$d/b" >/dev/null
    # only the cases that both runs reached within their time
    python3 - "$p" "$d/a" "$d/b" <<'PY' || rc=1
import json, sys
a, b = (json.load(open(f)) for f in sys.argv[2:])
both = sorted(set(a) & set(b), key=int)
bad = [i for i in both if a[i] != b[i]]
print(sys.argv[1], len(both), "cases compared,", len(bad), "differ", bad[:5])
sys.exit(bool(bad) or not both)
PY
    rm -f "$d/a" "$d/b"
done
exit $rc
