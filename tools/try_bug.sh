#!/bin/bash
# try_bug.sh ID [CHECK...]: apply seeded/ID to /repo, run its demo, the named checks and (with T=1) the
# repository's tests, then undo it.
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
d=$here/seeded/$id
cd /repo || exit 3
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 3; }
bash "$d/demo.sh" >/tmp/demo.clean 2>&1; echo "demo clean rc=$? (want 0)"
git apply "$d/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
bash "$d/demo.sh" >/tmp/demo.bug 2>&1; echo "demo bug rc=$? (want nonzero)"; tail -1 /tmp/demo.bug
for c in "$@"; do "$here/run.sh" "$c" | grep -v "^  " | tail -4; done
if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/t_bug.json >/tmp/t_bug.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t_bug.json'))
def passed(o):
    for k in ('passed','stable','tests','pass'):
        if isinstance(o,dict) and k in o:
            v=o[k]; return set(v if isinstance(v,list) else [a for a,s in v.items() if s in ('passed','pass',True)])
B=passed(b);P=passed(t)
print('tests: baseline',len(B),'broken by bug:',sorted(B-P)[:5])
P
fi
