#!/bin/bash
# dev helper: tr.sh <scenario> <seed> <index> [lines]
/verif/target/debug/simcheck exec $1 --trace --index $2 $3 </dev/null | python3 -c "
import json,sys
d=json.loads([l for l in sys.stdin if l.startswith('{')][-1])
print('\n'.join(d['trace'][-$4:])); print(d.get('class'),d.get('msg'))"
