#!/bin/bash
# plant.sh ID [check-prop ...]: confirms a planted bug in a scratch copy of /repo (in a mount, network and user
# namespace of its own, so that /repo itself is never touched) and runs the checks of the given properties against it.
# NOTESTS=1 skips the repository's tests.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /var/tmp/plant.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/tmp" "$W/verif"; chmod 777 "$W/tmp"
cp -a "$V"/. "$W/verif/"; rm -rf "$W/verif/.git"
cat > "$W/in.sh" <<'X'
set -u
W=$1; ID=$2; shift 2
mount --bind $W/repo /repo && mount --bind $W/verif /verif && mount --bind $W/tmp /tmp || exit 9
ip link set lo up 2>/dev/null || true
cd /repo
D=/verif/seeded/$ID
bash /opt/vp/build.sh >/tmp/b0 2>&1 || { echo "BUILD0 FAIL"; }
mkdir /tmp/demo; cp -r $D/. /tmp/demo/; rm -f /tmp/demo/*.diff /tmp/demo/meta.json
timeout 300 bash /tmp/demo/demo.sh > /tmp/d0 2>&1; a=$?
git -c safe.directory=* apply $D/patch.diff || { echo "APPLY FAIL"; exit 8; }
bash /opt/vp/build.sh >/tmp/b1 2>&1 || { echo "BUILD FAIL"; tail -20 /tmp/b1; exit 7; }
timeout 300 bash /tmp/demo/demo.sh > /tmp/d1 2>&1; b=$?
echo "$ID demo clean=$a patched=$b $([ $a = 0 ] && [ $b != 0 ] && echo OK || echo BAD)"
[ $a = 0 ] || tail -5 /tmp/d0
tail -2 /tmp/d1
if [ -z "${NOTESTS:-}" ]; then
  bash /opt/vp/test.sh /tmp/o.json >/tmp/t1 2>&1
  python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
print('   tests passed', len(o['passed']), 'failed', o['failed'], 'missing', sorted(st-set(o['passed']))[:5])
P
fi
cd /verif
for p in "$@"; do
  s=$(date +%s); timeout 900 python3 tools/check.py $p ${TIER:-quick} >/tmp/c.$p 2>&1; r=$?
  echo "   check $p exit $r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/c.$p)"
  [ $r = 1 ] || tail -3 /tmp/c.$p
done
X
unshare -Urmn --map-root-user bash "$W/in.sh" "$W" "$ID" "$@"
rm -rf "$W"
