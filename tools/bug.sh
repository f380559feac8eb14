#!/bin/bash
# Development aid: bug.sh ID [props...]: confirm a planted bug in a scratch copy of /repo bind-mounted at /repo
# (private mount namespace): applies, builds, stable tests pass, demo 0 before / nonzero after; then run checks on it.
ID=$1; shift
S=/verif/seeded/$ID
WT=/tmp/bugwt
if [ ! -d $WT ]; then cp -a /repo $WT; fi
( cd $WT && git checkout -q -- . && git clean -fdq -e _build cartographer && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD )
rm -rf /tmp/bugdemo; cp -a $S /tmp/bugdemo; rm -f /tmp/bugdemo/*.diff /tmp/bugdemo/meta.json
unshare -rm bash -c "
mount --bind $WT /repo; cd /repo
if [ -z \"$NOPRE\" ]; then
bash /opt/vp/build.sh >/tmp/bug.build0 2>&1 || { echo BASE-BUILD-FAIL; exit 1; }
timeout 300 bash /tmp/bugdemo/demo.sh >/tmp/bug.demo0 2>&1; echo demo-before=\$?
fi
git apply $S/patch.diff || { echo APPLY-FAIL; exit 1; }
if [ -z \"$NOTEST\" ]; then
bash /opt/vp/test.sh /tmp/bug.json >/tmp/bug.build1 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bug.json'))
st=b['stable']
miss=[t for t in st if t not in r['passed']]
print('tests-passed=%d missing=%s' % (len(r['passed']), miss[:5]))
P
timeout 300 bash /tmp/bugdemo/demo.sh >/tmp/bug.demo1 2>&1; echo demo-after=\$?
fi
cd /verif
PROPS='$*'
[ -z \"\$PROPS\" ] && PROPS=\$(python3 -c \"import json;print(json.load(open('$S/meta.json'))['property'])\")
for p in \$PROPS; do n=\$(echo \$p | tr P p); VERIF_BUILD=/tmp/bugbuild VERIF_EVID=/tmp/bugevid python3 checks/\${n}_*.py > /tmp/bug.\$p 2>&1; echo check \$p=\$?; grep -h 'violated:\|ERROR' /tmp/bug.\$p | cut -c1-300 | head -5; done
"
