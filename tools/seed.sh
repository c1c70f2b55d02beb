#!/bin/bash
# tools/seed.sh ID [CHECK...]: validates /verif/seeded/ID in scratch copies of /repo (applies, builds, passes the stable tests,
# demo.sh 0 without and nonzero with it) and runs the check of its property (or the ones given) against it.
id=$1; shift
S=/verif/seeded/$id; W=/tmp/vf-seed-$id; rm -rf "$W"; mkdir -p "$W/opt"
cp -a /repo "$W/repo" && git -C "$W/repo" checkout -q -- . || exit 1
cp -r /opt/vp "$W/opt/vp" 2>/dev/null
find "$W/opt/vp" -type f \( -name '*.sh' -o -name '*.py' -o -name '*.cpp' \) -exec sed -i "s#/repo#$W/repo#g; s#/opt/vp#$W/opt/vp#g" {} +
mkdir "$W/demo"; cp -r "$S"/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
run() { (cd "$W/repo" && rm -rf _build/sums && bash "$W/opt/vp/build.sh" > "$W/build.log" 2>&1) || { echo "$id: build failed"; tail -5 "$W/build.log"; return 1; }; }
run || exit 1
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1); a=$?
git -C "$W/repo" apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
run || exit 1
(cd "$W/repo" && bash "$W/opt/vp/test.sh" "$W/out.json" > "$W/test.log" 2>&1)
t=$(python3 - "$W/out.json" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
names=b['stable']
p=set(map(str,d['passed'])); m=[x for x in names if str(x) not in p]
print('ok' if not m else 'lost %d: %s'%(len(m),m[:3]))
P
)
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1); b=$?
echo "$id: demo clean=$a patched=$b tests=$t"
[ "$a" = 0 ] && [ "$b" != 0 ] && [ "$t" = ok ] || { head -5 "$W/demo0.log"; echo INVALID; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$prop}; do
  s=$(date +%s)
  out=$(cd /verif && VF_REPO="$W/repo" python3 check.py "$c" 2>&1); rc=$?
  echo "  $c: exit $rc ($(( $(date +%s) - s )) s) $(echo "$out" | grep -v '^VIOLATION\|^KNOWN' | head -2 | cut -c1-260)"
done
rm -rf "$W"
