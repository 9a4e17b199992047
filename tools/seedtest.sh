#!/bin/bash
# seedtest.sh ID...   (or no argument: all) -- validates planted bugs in a scratch copy of /repo
# and reports whether the property's check catches them.
V=$(cd "$(dirname "$0")/.." && pwd)
export CC=gcc LC_ALL=C
[ $# -eq 0 ] && set -- $(ls "$V/seeded")
one() {
  id=$1; D=$V/seeded/$id; S=$(mktemp -d /tmp/seed.XXXXXX); mkdir $S/d
  prop=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
  cp -a /repo $S/repo; cp $D/* $S/d/; rm -f $S/d/*.diff $S/d/meta.json
  r="$id [$prop]"
  cd $S/repo
  (cd _build && make -j4 >/dev/null 2>&1)
  timeout 300 bash $S/d/demo.sh >$S/clean.log 2>&1 && r="$r demo-clean:ok" || { r="$r demo-clean:FAILS"; tail -3 $S/clean.log; }
  if git apply $D/patch.diff; then
    (cd _build && make -j4 >$S/b.log 2>&1 && make -j4 check TESTS= >>$S/b.log 2>&1) && r="$r build:ok" || r="$r build:FAILS"
    (cd _build && rm -f test/*.trs test/*.log; make -k check >$S/t.log 2>&1; grep -l ':test-result: PASS' test/*.trs 2>/dev/null | wc -l) >$S/np
    r="$r tests:$(cat $S/np)/3"
    timeout 300 bash $S/d/demo.sh >$S/demo.log 2>&1 && r="$r demo-patched:PASSES(bad)" || r="$r demo-patched:fails(ok)"
    if [ -f "$V/rules/${prop,,}.py" ]; then
      (cd $V && BK_REPO=$S/repo BK_EVIDENCE=$S timeout 900 python3 check.py $prop >$S/c.log 2>&1); rc=$?
      if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" $S/c.log; then r="$r check:CAUGHT"; else r="$r check:missed(rc=$rc)"; fi
      [ -n "$VERBOSE" ] && grep -B1 -m2 '^VIOLATION' $S/c.log | cut -c1-300
    else r="$r check:none"; fi
  else r="$r patch:DOES-NOT-APPLY"; fi
  echo "$r"
  rm -rf "$S"
}
for i in "$@"; do one $i; done
