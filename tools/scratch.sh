#!/bin/bash
# tools/scratch.sh new            fresh copy of /repo HEAD in /tmp/w
# tools/scratch.sh keep ID PROP   store the diff of /tmp/w as seeded/ID/patch.diff
# tools/scratch.sh try ID CHECK   fresh copy with seeded/ID applied, run CHECK quick on it
# tools/scratch.sh demo ID        demo on a fresh copy without and with the patch
# tools/scratch.sh tests ID       stable tests on a fresh copy with the patch
V=$(cd "$(dirname "$0")/.." && pwd)
W=${W:-/tmp/w}
fresh() { rm -rf "$W"; git -C /repo worktree prune; git clone -q /repo "$W"; }
case $1 in
new) fresh ;;
keep) mkdir -p "$V/seeded/$2"; git -C "$W" diff > "$V/seeded/$2/patch.diff"; cat "$V/seeded/$2/patch.diff" ;;
try) fresh; git -C "$W" apply "$V/seeded/$2/patch.diff" || exit 9; VERIF_REPO=$W bash "$V/run.sh" "$3" ${4:-quick} ;;
demo) fresh; D=/tmp/demo.$$; cp -r "$V/seeded/$2" $D
  (cd "$W" && sed "s#/repo#$W#g" -i $D/* && PYTHONPATH=$W bash $D/demo.sh); echo "clean: $?"
  git -C "$W" apply "$V/seeded/$2/patch.diff"; (cd "$W" && PYTHONPATH=$W bash $D/demo.sh); echo "patched: $?"; rm -rf $D ;;
tests) fresh; git -C "$W" apply "$V/seeded/$2/patch.diff"; cd "$W"; PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q --tb=no -n 8 -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/j.$$.xml tests >/dev/null 2>&1
  python3 - /tmp/j.$$.xml <<'P'
import sys,json,xml.etree.ElementTree as E
base=json.load(open('/opt/vp/BASELINE.json'))
ok={f"{c.get('classname')}::{c.get('name')}" for c in E.parse(sys.argv[1]).iter('testcase') if not any(x.tag in('failure','error','skipped') for x in c)}
b=base.get('stable') or base.get('passed') or base.get('tests') or base
b=[x if isinstance(x,str) else x.get('id') for x in (b if isinstance(b,list) else list(b))]
print(len(ok),'passed; baseline',len(b), 'missing', [x for x in b if x.split('::')[-1] not in {o.split('::')[-1] for o in ok}][:5])
P
  rm -f /tmp/j.$$.xml ;;
esac
