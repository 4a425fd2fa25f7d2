#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo: apply, build, stable tests, demo with and without.
one() {
  id=$1
  w=/tmp/seedwt.$id; /bin/rm -rf "$w"; cp -a /repo "$w"
  s=/tmp/seeddemo.$id; /bin/rm -rf "$s"; mkdir "$s"; cp /verif/seeded/$id/* "$s"; /bin/rm -f "$s"/*.diff "$s"/meta.json
  cp -a /opt/vp "$s.vp" 2>/dev/null; sed -i "s#/repo#$w#g; s#/opt/vp#$s.vp#g" "$s.vp"/*.sh "$s.vp"/*.py "$s.vp"/*.mk 2>/dev/null
  cd "$w"
  (timeout 300 bash "$s/demo.sh") >"$s.clean.log" 2>&1; a=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; return; }
  bash "$s.vp/build.sh" >"$s.build.log" 2>&1; b=$?
  (timeout 300 bash "$s/demo.sh") >"$s.bug.log" 2>&1; c=$?
  bash "$s.vp/test.sh" "$s.out.json" >"$s.test.log" 2>&1
  t=$(python3 -c "
import json;o=json.load(open('$s.out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
m=[x for x in b if x not in o['passed']];print('tests ok' if not m else 'TESTS MISSING %s'%m[:3])")
  v=OK; [ $a = 0 ] && [ $b = 0 ] && [ $c != 0 ] && [ "$t" = "tests ok" ] || v=BAD
  echo "$v $id: clean demo $a (want 0), build $b (want 0), demo with bug $c (want nonzero), $t"
  tail -n 3 "$s.bug.log" | sed 's/^/    /'
  [ $a = 0 ] || tail -n 5 "$s.clean.log" | sed 's/^/    clean: /'
  cd /; /bin/rm -rf "$w" "$s" "$s.vp"
}
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
