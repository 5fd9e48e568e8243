#!/bin/bash
# tryseed.sh <id>...: confirm planted changes in a scratch copy of /repo: the
# patch applies, builds and passes the tests; the demonstration passes without
# it and fails with it; the lines it removes are the original repository's.
root=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/tryseed.XXXXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
cd "$w/repo" || exit 2
base=$(git rev-list --max-parents=0 HEAD | tail -1)
base=$(git log --format=%h --grep='^base' | tail -1)
for id in "$@"; do
    d=$root/seeded/$id
    cp -a "$d" "$w/seed"
    git checkout -q -- .
    bash "$w/seed/demo.sh" >"$w/o1" 2>&1; clean=$?
    own=$(git apply --numstat "$d/patch.diff" >/dev/null && python3 - "$d/patch.diff" "$base" <<'P'
import re,subprocess,sys
f=None;bad=0;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: i=int(m.group(1))-1; 
    elif l.startswith('-') and not l.startswith('---'):
        i+=1; n+=1
        b=subprocess.run(['git','blame','-l','-s','-L%d,%d'%(i,i),'HEAD','--',f],capture_output=True,text=True).stdout
        if not b.lstrip('^').startswith(sys.argv[2]): bad+=1
    elif l.startswith(' '): i+=1
print('%d/%d'%(n-bad,n))
P
)
    git apply "$d/patch.diff" || { echo "$id does not apply"; rm -rf "$w/seed"; continue; }
    bash "$w/seed/demo.sh" >"$w/o2" 2>&1; pat=$?
    echo "$id clean=$clean patched=$pat original-lines=$own $(tail -n 1 "$w/o2" | cut -c1-150)"
    [ $clean = 0 ] || tail -n 3 "$w/o1"
    rm -rf "$w/seed"
done
