#!/bin/bash
# trybug.sh <id>...: applies each planted bug to /repo, builds, runs its demonstration and its check, and undoes it
cd /repo || exit 2
for id in "$@"; do
   d=/verif/seeded/$id
   git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
   bash /opt/vp/build.sh > /tmp/trybug-build.log 2>&1 || echo "$id: does not build"
   timeout 300 bash $d/demo.sh > /tmp/trybug-demo.log 2>&1; demo=$?
   p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
   cmd=$(python3 -c "import json;print(next((c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'),'echo unclaimed; exit 77'))")
   start=$SECONDS
   (cd /verif; eval "$cmd") > /tmp/trybug-check.log 2>&1; check=$?
   echo "$id: demo $demo ($(grep -a FAILED /tmp/trybug-demo.log | head -1 | cut -c1-100)), check $check in $((SECONDS-start)) s: $(grep -a VIOLATION /tmp/trybug-check.log | head -1)"
   git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh > /tmp/trybug-build.log 2>&1
for id in "$@"; do timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/trybug-demo.log 2>&1 || echo "$id: demo fails on the unchanged tree: $(tail -1 /tmp/trybug-demo.log)"; done
