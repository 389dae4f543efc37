#!/bin/bash
# ev.sh ID [CHECK...]: try the planted bug seeded/ID in private copies of /repo and /verif (development helper).
# Without checks: only that it builds, passes the stable tests, and what its demo says. "own": its property's check; "all": every check.
id="$1"; shift
w=/tmp/ev/$id; mkdir -p /tmp/ev; [ -e "$w" ] && find "$w" -delete
mkdir -p "$w" && cp -a /repo "$w/repo" && cp -a /opt/vp "$w/vp" && mkdir "$w/verif" && (cd /verif && cp -a $(ls -A | grep -v -e '^evidence$' -e '^\.git$') "$w/verif/") && mkdir -p "$w/verif/evidence"
export ID="$id" W="$w" CH="$*"
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
d=/verif/seeded/$ID
cd /repo
bash $d/demo.sh >/dev/null 2>&1 || echo "$ID: DEMO FAILS ON CLEAN TREE"
git apply $d/patch.diff || { echo "$ID: patch does not apply"; exit; }
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID: DOES NOT BUILD"; grep -A6 "^error" $W/build.log | head -20; exit; }
bash /opt/vp/test.sh $W/out.json >/dev/null
python3 - <<E
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open("$W/out.json")); ok=set()
for k,v in o.items():
    if isinstance(v,dict):
        for t,r in v.items():
            if r in ("passed","pass",True): ok.add(t)
    elif k in ("passed","pass"): ok|=set(v)
if b-ok: print("$ID: BREAKS STABLE TESTS", sorted(b-ok)[:5])
E
bash $d/demo.sh >$W/demo.log 2>&1; rc=$?
[ $rc = 0 ] && echo "$ID: DEMO PASSES WITH PATCH"; [ $rc -ge 98 -a $rc -le 99 ] && { echo "$ID: DEMO rc=$rc"; head -30 $W/demo.log; }
ch="$CH"
[ "$ch" = own ] && ch=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
[ "$ch" = all ] && ch=$(cut -d\" -f4 /verif/properties.jsonl)
cd /verif; res=""
for c in $ch; do s=$(date +%s); timeout 900 ./check run $c quick >$W/$c.log 2>&1; rc=$?; e=$(($(date +%s)-s))
 if [ $rc = 1 ] && grep -q "VIOLATION property=$c" $W/$c.log; then res="$res $c:caught(${e}s)"; elif [ $rc != 0 ]; then res="$res $c:rc$rc(${e}s)"; tail -5 $W/$c.log; [ "$CH" = own ] && true; elif [ "$CH" = own ]; then res="$res $c:MISSED(${e}s)"; fi; done
echo "$ID:$res"
'
[ -n "$KEEP" ] || find "$w" -delete
