#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in scratch copies of /repo (bind
# mounted over /repo in a private mount namespace): builds, passes the stable
# tests, demo 0 -> nonzero, and says whether the property's check reports it.
V=/verif
one() {
    id=$1; s=/tmp/seedrun-$id; rm -rf "$s"; mkdir -p "$s/repo" "$s/demo"
    cp -a /repo/. "$s/repo/"; git -C "$s/repo" checkout -q -- .
    cp -r $V/seeded/$id/. "$s/demo/"; rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
    unshare -m bash -c '
        id=$1; s=$2; mount --bind $s/repo /repo; cd /repo
        prop=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
        bash /opt/vp/build.sh >$s/b0.log 2>&1 || echo "$id base build FAILED"
        timeout 300 bash $s/demo/demo.sh >$s/d0.log 2>&1; d0=$?
        git apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; exit; }
        bash /opt/vp/build.sh >$s/b1.log 2>&1; b=$?
        bash /opt/vp/test.sh $s/t.json >$s/t.log 2>&1
        miss=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))
b=b if isinstance(b,list) else b.get(\"stable\",b.get(\"passed\"))
print(len(set(b)-set(json.load(open(\"$s/t.json\"))[\"passed\"])))")
        timeout 300 bash $s/demo/demo.sh >$s/d1.log 2>&1; d1=$?
        cd /verif; ./check $prop >$s/c.log 2>&1; c=$?
        ok=BAD; [ $b = 0 ] && [ $miss = 0 ] && [ $d0 = 0 ] && [ $d1 != 0 ] && ok=counts
        echo "$id [$prop] build=$b tests-missing=$miss demo0=$d0 demo1=$d1 check=$c => $ok, $([ $c = 1 ] && echo caught || echo MISSED)"
        [ $ok = BAD ] && { tail -n 5 $s/b1.log $s/d0.log $s/d1.log; }
        grep -v "^VIOLATION\|obligations\|: [0-9]*$" $s/c.log | head -3
    ' _ "$id" "$s"
    rm -rf "$s"
}
export -f one; export V
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
