#!/bin/bash
# usage: batch.sh DIR   makes and tries every seed specification of a directory (development aid)
for f in $1/*.py; do python3 /verif/tools/mkseed.py $f || continue; id=$(python3 -c "
s={};exec(open('$f').read(),s);print(s['id'])"); [ -n "$ALL" -o ! -f $1/$id.done ] || continue; bash /verif/tools/try_seed.sh $id 2>&1 | tee $1/$id.out; grep -q 'rc=1' $1/$id.out && touch $1/$id.done; done
