#!/bin/sh
# run every claimed check (quick), one line each
cd "$(dirname "$0")/.."
for c in ${*:-$(python3 -c "import json;print(' '.join(p['property'] if 'property' in p else p['id'] for p in json.load(open('MANIFEST.json'))['checks']))")}; do
  echo $c
done | xargs -P 6 -I{} sh -c 'timeout 900 python3 check.py {} > /tmp/chk.{} 2>&1; echo "{} $? $(grep -c KNOWN-FINDING /tmp/chk.{})"; rm -f /tmp/chk.{}' | sort
