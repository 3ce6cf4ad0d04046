#!/bin/bash
# quiet.sh DIR [id...]: runs checks (default all) against a changed copy of the repository in DIR; all must be quiet
W=/tmp/mx; D=$1; shift; mkdir -p $W
rsync -a --delete --exclude target --exclude .git $D/ $W/repo/
rsync -a --exclude evidence --exclude seeded --exclude .git --exclude replays /verif/ $W/verif/
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/verif/mc/Cargo.toml $W/verif/probe/Cargo.toml
find $W/repo/src $W/repo/Cargo.toml | xargs touch
cd $W/verif
ps=("$@"); [ ${#ps[@]} -eq 0 ] && ps=($(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])"))
for p in "${ps[@]}"; do
  s=$(date +%s); ( ulimit -v 25000000; timeout 890 ./check.sh $p quick >/tmp/quiet.$p.out 2>&1 ); rc=$?
  echo "$p $rc $(( $(date +%s)-s ))s $( [ $rc = 0 ] || grep -m2 -E 'VIOLATION|error' /tmp/quiet.$p.out )"
done
