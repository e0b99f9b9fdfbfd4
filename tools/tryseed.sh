#!/bin/bash
# tryseed.sh ID [PROP...]: runs the checks of the seed's property (or PROP...) on /repo with the patch applied, then undoes it.
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
for p in $props; do /verif/check.py $p quick > /tmp/try_$id.$p 2>&1; echo "$id $p exit=$? $(grep VIOLATION /tmp/try_$id.$p | head -3 | tr '\n' ';')"; done
git -C /repo checkout -q -- .
