#!/bin/bash
# seedtest.sh ID...: confirm planted changes in scratch copies: builds, passes the stable
# tests, demo passes without and fails with the change; then run the property's check on it
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; D=/tmp/seedtest.$id; rm -rf "$D"; mkdir "$D" || exit 1
    cp -a /repo "$D/repo"; R=$D/repo
    for s in build test; do
        sed "s#/opt/vp/build.sh#$D/build.sh#g; s#/repo#$R#g" /opt/vp/$s.sh > "$D/$s.sh"
    done
    mkdir "$D/demo"; cp "$V/seeded/$id"/* "$D/demo/"; rm -f "$D/demo/"*.diff "$D/demo/meta.json"
    prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
    bash "$D/build.sh" > "$D/b0.log" 2>&1 || echo "$id: base build fails"
    (cd "$R" && timeout 300 bash "$D/demo/demo.sh") > "$D/d0.log" 2>&1; d0=$?
    git -C "$R" apply "$V/seeded/$id/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$D"; return; }
    bash "$D/build.sh" > "$D/b1.log" 2>&1 || { echo "$id: DOES NOT BUILD"; grep -m3 error "$D/b1.log"; rm -rf "$D"; return; }
    (cd "$R" && timeout 300 bash "$D/demo/demo.sh") > "$D/d1.log" 2>&1; d1=$?
    if [ -z "$NOTEST" ]; then
        bash "$D/test.sh" "$D/out.json" > "$D/t.log" 2>&1
        t=$(python3 - "$D/out.json" <<'E2'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable_pass') or b.get('passed') or b.get('stable') or b
st=set(st); p=set(o['passed'])
print("tests ok" if st<=p else "TESTS FAIL: %d"%len(st-p))
E2
)
    fi
    rm -rf "$D/verif"; mkdir "$D/verif"
    cp -r "$V/check.py" "$V/lib" "$V/rules" "$V/build" "$V/known_findings.json" "$V/setup.sh" "$D/verif/"
    for pr in $prop $EXTRA; do
    HOB3L_REPO=$R timeout 900 python3 "$D/verif/check.py" $pr > "$D/c.log" 2>&1; c=$?
    res="$res $pr=$c"
    [ $c = 1 ] && grep -B1 "key:" "$D/c.log" | grep -v "^--" | cut -c1-200 | head -4
    [ $c = 2 ] && tail -3 "$D/c.log"
    done
    echo "$id: demo base=$d0 patched=$d1; $t; check$res (1=caught)"
    [ "$d0" != 0 ] && tail -5 "$D/d0.log"
    rm -rf "$D"
}
for i in "$@"; do one "$i"; done
