#!/bin/bash
# mkseed.sh ID PROPERTY PKGDIR DEMO_TEST_FILE "needs" "what it breaks"
# Makes seeded/ID from the uncommitted change in the scratch copy /tmp/seed/repo: checks that it builds, passes the
# stable tests, and that the demo (an in-package test put in through an overlay) tells the trees apart.
set -e
trap 'git -C /repo checkout -q -- .; git -C /tmp/seed/repo checkout -q -- .' EXIT
ID=$1 PROP=$2 DIR=$3 T=$4 NEEDS=$5 WHAT=$6
S=/tmp/seed/repo
D=/verif/seeded/$ID
mkdir -p $D
git -C $S diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
[ "$T" = "$D/demo_test.go.txt" ] || cp $T $D/demo_test.go.txt
cat > $D/demo.sh <<'X'
#!/bin/bash
# An in-package test of the code in the current directory's tree, put in through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
dir=@DIR@
repo=$(pwd)
t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/demo_test.go"
{ echo '{"Replace":{'
for f in "$repo/$dir"/*_test.go; do [ -e "$f" ] && echo "\"$f\":\"\","; done
echo "\"$repo/$dir/zz_demo_test.go\":\"$t/demo_test.go\"}}"; } > "$t/overlay.json"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" && TMPDIR="$t" go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo' "./$dir"
X
sed -i "s#@DIR@#$DIR#" $D/demo.sh; chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$WHAT" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
( . /opt/vp/env.sh; cd /repo && bash $D/demo.sh >/tmp/seed/clean.log 2>&1 ) && echo "demo clean: ok" || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/seed/clean.log; exit 1; }
git -C /repo apply $D/patch.diff
bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1 && echo build ok || { echo BUILD FAILS; tail -5 /tmp/seed/build.log; }
( cd /repo && bash $D/demo.sh >/tmp/seed/bug.log 2>&1 ) && { echo "DEMO PASSES WITH BUG"; exit 1; } || { echo "demo bug: fails as it should"; grep -E "demo_test.go:|panic:|FAIL|build" /tmp/seed/bug.log | head -4; }
bash /opt/vp/test.sh /tmp/seed/out.json >/tmp/seed/test.log 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/out.json'))
print({k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in o.items()})
X
(cd /verif && ./check.sh $PROP quick 2>&1 | tail -6)
git -C /repo checkout -- .
git -C $S checkout -q -- .
