#!/bin/bash
# stable tests on a copy of the repository:  testcopy.sh DIR
cd "$1" || exit 1
T=$(mktemp -d)
export MPLBACKEND=Agg MPLCONFIGDIR=$T/mpl PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml="$T/j.xml" tests >"$T/log" 2>&1
/usr/bin/python3 /opt/vp/results.py "$T/o.json" "junit:$T/j.xml" >/dev/null
python3 - "$T/o.json" <<'P'
import json, sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open(sys.argv[1]))['passed'])
m=[t for t in b if t not in o]
print("tests ok" if not m else f"TESTS BROKEN {m[:3]}")
P
rm -rf "$T"
