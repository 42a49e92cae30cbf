#!/bin/bash
# plant.sh ID [PROP...]: confirm a planted bug in a private copy of /repo (bind-mounted over /repo in a mount
# namespace of its own) and run the named checks (default: its property's) against it.
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=/tmp/w/plant_$id; rm -rf "$w"; mkdir -p $w; cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/vf /verif/contracts /verif/props /verif/known_findings.json $w/verif/; cp -a $d $w/demo
cat > $w/run.sh <<X
mount --bind $w/repo /repo || exit 9
cd /repo
timeout 300 bash $w/demo/demo.sh > $w/demo0.log 2>&1; echo "demo on unchanged: \$? (want 0)"
git apply $d/patch.diff || { echo APPLY-FAILED; exit 9; }
bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
names=b if isinstance(b,list) else b.get('passed') or b.get('tests') or b.get('stable')
miss=[x for x in names if x not in t['passed']]
print('stable tests missing:', len(miss), miss[:3])
P
timeout 300 bash $w/demo/demo.sh > $w/demo1.log 2>&1; echo "demo on patched: \$? (want nonzero)"
for p in $props; do python3 $w/verif/vf/run.py \$p > $w/check_\$p.log 2>&1; echo "check \$p: exit \$? \$(grep VIOLATION $w/check_\$p.log)"; done
X
unshare -Urm bash $w/run.sh 2>&1 | sed "s/^/[$id] /" | tee $w/all.log
flock /verif/vf/seeded_results.json python3 - <<P
import json,re
f='/verif/vf/seeded_results.json'; r=json.load(open(f)); t=open('$w/all.log').read()
v=re.findall(r'check (\w+): exit (\d+) (.*)',t)
bad=[x for x in ('demo on unchanged: 0','stable tests missing: 0 ') if x not in t]+(['demo passes with the bug'] if 'demo on patched: 0' in t else [])
r['$id']='; '.join('caught by %s (%s)'%(p,(re.findall(r'replays/(\S+)\.json',l) or ['?'])[0]+(', no input' if 'no-failing' in l else '')) if e=='1' else ('missed by %s'%p if e=='0' else 'no answer from %s'%p) for p,e,l in v)+(' INVALID: '+', '.join(bad) if bad else '')
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
[ -n "$KEEP" ] || rm -rf "$w"
