#!/bin/bash
# mkseed.sh ID PROP FILE MUTATION.py DEMO_test.go "needs" "what it breaks": confirms a planted bug in a scratch copy and keeps it in seeded/ID
id=$1 prop=$2 file=$3 mut=$4 demo=$5 needs=$6 breaks=$7
d="$(mktemp -d /tmp/seed.XXXX)"; trap 'rm -rf "$d"' EXIT
git -C /repo worktree prune
cp -a /repo/. "$d/repo"
s="$d/out"; mkdir "$s"
cp "$demo" "$s/demo_test.go"; cp /verif/tools/demo.sh "$s/demo.sh"; chmod +x "$s/demo.sh"
( cd /repo && bash "$s/demo.sh" >"$d/log0" 2>&1 ) || { echo "DEMO FAILS ON CLEAN TREE"; tail -20 "$d/log0"; exit 1; }
python3 - "$d/repo" "$file" "$mut" <<'P' || exit 1
import sys,os
root,file,mut=sys.argv[1:]
code=open(mut).read() if os.path.exists(mut) else mut
os.chdir(root)
def rep(f,a,b,n=1):
    s=open(f).read()
    assert s.count(a)>=1,('not found',a)
    assert n==0 or s.count(a)==n,('count',s.count(a))
    open(f,'w').write(s.replace(a,b))
exec(code,{'rep':rep,'F':file})
P
( cd "$d/repo" && git diff > "$s/patch.diff" ); [ -s "$s/patch.diff" ] || { echo "empty patch"; exit 1; }
git -C /repo apply "$s/patch.diff" || exit 1
ok=1
bash /opt/vp/build.sh >"$d/logb" 2>&1 || { echo "BUILD FAILS"; cat "$d/logb"; ok=0; }
[ $ok = 1 ] && { bash /opt/vp/test.sh "$d/out.json" >"$d/logt" 2>&1; python3 -c "
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$d/out.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('stable tests failing:',m) if m else None; sys.exit(bool(m))" || ok=0; }
[ $ok = 1 ] && { ( cd /repo && bash "$s/demo.sh" >"$d/log1" 2>&1 ); rc=$?; [ $rc = 0 ] && { echo "DEMO PASSES WITH PATCH"; ok=0; }; grep -m3 -E 'demo_test|panic|---' "$d/log1"; }
if [ $ok = 1 ] && [ -z "$NOCHECK" ]; then ( cd /verif && bash check.sh "$prop" quick 2>&1 | grep -E 'VIOLATION|harness|note' | cut -c1-400 ); fi
git -C /repo checkout -- .
[ $ok = 1 ] || exit 1
mkdir -p /verif/seeded/"$id"; cp "$s"/* /verif/seeded/"$id"/
python3 -c "
import json,sys
json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open(sys.argv[4],'w'),indent=1)" "$prop" "$needs" "$breaks" /verif/seeded/"$id"/meta.json
echo "KEPT $id"
