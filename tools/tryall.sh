#!/bin/bash
# every planted bug against the check of its property (or the ones named after --)
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  tools/tryseed.sh $i $(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
done
