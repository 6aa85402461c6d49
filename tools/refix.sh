#!/bin/bash
# refix.sh COMMIT PROPERTY: the check of the property on /repo with the repair COMMIT undone (private copies, bind mounts)
c=$1; p=$2; w=/tmp/x/refix/$c; mkdir -p $w/repo $w/verif
cp -a /repo/. $w/repo; (cd /verif; cp -a --parents $(git ls-files | grep -v ^seeded/) $w/verif); mkdir -p $w/verif/evidence
git -C $w/repo revert -n $c >$w/revert.log 2>&1 || { echo "$c $p CONFLICT"; exit; }
unshare -Urm bash -c "mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh $p >$w/check.log 2>&1; echo \$? >$w/rc"
echo "$c $p check=$(cat $w/rc) $(grep -m1 ^VIOLATION $w/check.log)" | tee -a /tmp/x/refix/all.txt
python3 -c "import shutil;shutil.rmtree('$w/repo', True)"
