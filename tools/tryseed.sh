#!/bin/bash
# tryseed.sh ID [PROPERTY]: run the check of the seed's property on /repo with the seed applied
p=${2:-$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
cd /verif && python3 check.py $p | tail -${3:-4} | cut -c1-400; echo "seed $1 $p exit ${PIPESTATUS[0]}"
git -C /repo checkout -q -- .
