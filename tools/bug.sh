#!/bin/bash
# bug.sh ID [demo|test|check]...: tries a planted bug in a private copy of /repo and /verif (bind mounts of a user
# namespace), so that the real folders stay as they are.  Results: /tmp/x/bugs/ID.log
id=$1; shift; steps=${*:-demo test check}
src=${SEEDED:-/verif/seeded}/$id; base=/tmp/x/bugs; w=$base/$id; mkdir -p $base
prop=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
python3 -c "import shutil;shutil.rmtree('/tmp/x/bugs/$id', True)"; mkdir -p $w/repo $w/verif $w/reports $w/demo
cp -a /repo/. $w/repo; (cd /verif; cp -a --parents $(git ls-files | grep -v ^seeded/) $w/verif); mkdir -p $w/verif/evidence
cp $src/demo.sh $src/*.py $w/demo
(cd $w/demo && unshare -m bash -c "mount --bind $w/repo /repo; cd /repo; timeout 300 bash $w/demo/demo.sh" >$w/demo0.log 2>&1); d0=$?
git -C $w/repo apply $src/patch.diff || { echo "$id NOAPPLY"; exit 1; }
unshare -m bash -c "
mount --bind $w/repo /repo; mount --bind $w/verif /verif; mkdir -p /opt/vp/reports; mount --bind $w/reports /opt/vp/reports
cd /repo; r=
case ' $steps ' in *' demo '*) timeout 300 bash $w/demo/demo.sh >$w/demo1.log 2>&1; r=\"\$r demo=\$?\";; esac
case ' $steps ' in *' test '*) bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1; r=\"\$r tests=\$(python3 /tmp/x/cmp.py $w/out.json | tail -1)\";; esac
case ' $steps ' in *' check '*) cd /verif; VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh $prop >$w/check.log 2>&1; r=\"\$r check=\$? \$(grep -m1 ^VIOLATION $w/check.log)\";; esac
echo \"\$r\" >$w/result"
echo "$id $prop clean-demo=$d0 $(cat $w/result)" | tee $base/$id.log
python3 -c "import shutil;shutil.rmtree('/tmp/x/bugs/$id/repo', True)"
