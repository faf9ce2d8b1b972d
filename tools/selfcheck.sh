#!/bin/bash
# every claimed property on the current tree: all units proved, nothing undecided. usage: selfcheck.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
bad=0
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null)}; do
  python3 check.py "$p" > /tmp/selfcheck.$p 2>&1; rc=$?
  python3 - "$p" $rc <<'P' || bad=1
import json, sys
p, rc = sys.argv[1], sys.argv[2]
c = json.load(open(f"evidence/{p}.json"))["coverage"]
ok = rc == "0" and c["decided_by"] == "proof" and c["obligations"] == c["discharged"] > 0 and not c["undecided"] and c["bounded_search_on_the_real_code"]["built"]
print(p, "ok" if ok else "NOT PROVED", f"{c['discharged']}/{c['obligations']}", [u["why"][:120] for u in c["undecided"]] or "", "rc", rc)
sys.exit(0 if ok else 1)
P
done
exit $bad
