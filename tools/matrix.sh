#!/bin/bash
# matrix.sh [-a] [-r] [id...]: runs the property's check (-a: all checks) against planted changes,
# in a copy of /repo and of the harness under /tmp/mx. -r: the ids are reverted commits "commit:property".
W=/tmp/mx; mkdir -p $W
rsync -a --delete --exclude target /repo/ $W/repo/
rsync -a --exclude evidence --exclude seeded --exclude .git --exclude replays /verif/ $W/verif/
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/verif/mc/Cargo.toml $W/verif/probe/Cargo.toml
cd $W/verif
all=0; [ "$1" = -a ] && { all=1; shift; }
rev=0; [ "$1" = -r ] && { rev=1; shift; }
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls /verif/seeded))
for i in "${ids[@]}"; do
  git -C $W/repo checkout -q -- .
  if [ $rev = 1 ]; then
    ps=${i#*:}; git -C $W/repo show ${i%%:*} | git -C $W/repo apply -R || { echo "$i: does not revert"; continue; }
  else
    git -C $W/repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
    ps=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  fi
  [ $all = 1 ] && ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
  r=""
  for p in $ps; do
    s=$(date +%s); ( ulimit -v 25000000; timeout 890 ./check.sh $p quick >/tmp/matrix.out 2>&1 ); rc=$?; e=$(( $(date +%s)-s ))
    r="$r $p:$rc(${e}s)"
    cp /tmp/matrix.out /tmp/matrix.$i.$p.out
  done
  git -C $W/repo checkout -q -- .
  echo "$i$r"
done
