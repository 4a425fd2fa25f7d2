#!/bin/bash
# one.sh BINARY PROP INDEX [seed]: run one index, then replay its tape verbosely (development aid)
cd "$(dirname "$0")/.."
${SIM_BUILD:-build}/$1 --prop $2 --seed ${4:-1} --from $3 --n 1 > /tmp/one.json
python3 - <<'P'
import json
j=json.load(open('/tmp/one.json'))
for v in j["violations"]:
    print(v["o"]["cls"], v["o"]["msg"]); open("/tmp/one.tape","w").write(" ".join(map(str,v["o"]["tape"])))
P
${SIM_BUILD:-build}/$1 --prop $2 --minimise /tmp/one.tape --minsecs 15 > /tmp/one.min.json
python3 -c "
import json
j=json.load(open('/tmp/one.min.json'))
print(j['cls'],j['msg']); print(j['desc'])
print('\n'.join(j.get('trace',[])[-int('${TR:-40}'):]))"
