#!/bin/bash
# usage: tools/plant.sh ID   Takes the edits in the scratch copy /tmp/wt (a clean
# cp -a of /repo plus the change), makes seeded/ID/patch.diff, and confirms: builds, the tests
# pass, the demonstration passes without and fails with the change.  Then runs the
# property's check against it (in /repo, undone afterwards) unless NOCHECK is set.
set -u
id=$1; dir=/verif/seeded/$id; wt=/tmp/wt
. /opt/vp/env.sh
cat > $dir/demo.sh <<'EOD'
#!/bin/bash
# runs demo_test.go as a test of the package in the current directory
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
pkg=$(sed -n 's,^// package-dir: ,,p' "$here/demo_test.go"); pkg=${pkg:-.}
printf '{"Replace": {"%s/zz_demo_test.go": "%s"}}' "$(cd $pkg && pwd)" "$here/demo_test.go" > "$tmp/overlay.json"
export TMPDIR=$tmp
timeout 250 go test -overlay "$tmp/overlay.json" -count=1 -run 'TestDemo' "./$pkg"
EOD
chmod +x $dir/demo.sh
if [ -d $wt ]; then git -C $wt diff > $dir/patch.diff; fi
[ -s $dir/patch.diff ] || { echo "no change"; exit 2; }
sc=/tmp/plant.$$; cp -a /repo $sc; trap "rm -rf $sc" EXIT
cd $sc
bash $dir/demo.sh > /tmp/demo.clean 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/demo.clean; exit 1; }
git apply $dir/patch.diff || exit 1
go build ./... && go vet . >/dev/null 2>&1 || { echo "BUILD FAILS"; go vet . ; exit 1; }
go test ./... > /tmp/plant.test 2>&1 || { echo "TESTS FAIL"; grep -a '\[FAIL\]\|panic:' /tmp/plant.test | cut -c1-160 | head -8; exit 1; }
bash $dir/demo.sh > /tmp/demo.bad 2>&1 && { echo "DEMO PASSES WITH CHANGE"; exit 1; }
grep -m3 -i 'demo_test\|panic' /tmp/demo.bad
echo "planted $id ok"
[ -n "${NOCHECK:-}" ] && exit 0
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
bash /verif/tools/dev.sh $sc $prop ${CHECKFLAGS:-} 2>&1 | tail -4
