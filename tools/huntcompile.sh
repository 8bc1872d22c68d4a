#!/bin/bash
# Every property's bounded check must compile against the current /repo. (The checks themselves only note it.)
cd /verif && for p in $(python3 -c "import json;print(*[k for k,v in sorted(json.load(open('conf.json')).items()) if v.get('hunt')])"); do
  ./bin/lpgvc check -prop $p -noproof 2>&1 | grep -A3 "does not compile" && { echo "$p: BAD"; bad=1; }
done
[ -z "$bad" ] && echo "all bounded checks compile"
