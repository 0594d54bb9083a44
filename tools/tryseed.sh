#!/bin/bash
# tools/tryseed.sh [-t] ID... : apply each planted bug to /repo, build, run its
# demo (-t: and the test suite) and its property's quick check, and undo it.
t=0; [ "$1" = -t ] && { t=1; shift; }
for id in "$@"; do
	d=/verif/seeded/$id
	prop=${CHECK:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
	git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
	git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || echo "$id: build fails"
	(cd /repo && timeout 300 sh $d/demo.sh >/tmp/ts.demo 2>&1); dr=$?
	tr=-
	if [ $t = 1 ]; then
		bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
		tr=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/ts.json'))
b=b.get('stable') or b.get('passed') or b.get('tests') or b
print(len(set(b)-set(r['passed'])))")
	fi
	s=$(date +%s)
	(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop quick >/tmp/ts.check 2>&1); cr=$?
	e=$(date +%s)
	git -C /repo checkout -q -- .
	bash /opt/vp/build.sh >/tmp/ts.log 2>&1
	(cd /repo && timeout 300 sh $d/demo.sh >/tmp/ts.demo0 2>&1); d0=$?
	echo "$id ($prop): demo clean=$d0 bug=$dr tests-missing=$tr check=$cr $((e-s))s $(grep -m1 VIOLATION /tmp/ts.check)"
done
