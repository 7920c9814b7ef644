#!/bin/bash
# seedcheck.sh ID [PROP...]: confirms a planted bug: it applies, builds, passes the tests, its demo passes without and
# fails with it; then runs the checks of its property (or of those given) against it.
id=$1; shift
s=/verif/seeded/$id
d=$(mktemp -d /tmp/wt/seed.XXXXXX)
cp -a /repo $d/repo
rm -rf $d/demo; mkdir $d/demo; cp -r $s/. $d/demo/; rm -f $d/demo/*.diff $d/demo/meta.json
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd $d/repo
ok=1
bash $d/demo/demo.sh >$d/out 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -20 $d/out; ok=0; }
git apply $s/patch.diff || { echo "$id: does not apply"; ok=0; }
go build ./... || { echo "$id: does not build"; ok=0; }
go vet ./... >/dev/null 2>$d/vet || { echo "$id: vet"; head -5 $d/vet; }
go test ./... >$d/test 2>&1 || { echo "$id: tests FAIL"; grep -E "^(---|FAIL)" $d/test | head; ok=0; }
bash $d/demo/demo.sh >$d/out 2>&1 && { echo "$id: demo PASSES with the patch"; ok=0; }
[ $ok = 1 ] && echo "$id: confirmed"
ps="$@"
[ -z "$ps" ] && ps=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ "$ps" = none ] || for p in $ps; do
 out=$(cd /verif && SIM_REPO=$d/repo timeout 890 ./run.sh $p ${TIER:-quick} 2>&1); rc=$?
 echo "$id: check $p exit $rc"; echo "$out" | tail -5 | cut -c1-400
done
rm -rf $d
