#!/bin/bash
# seedcheck.sh ID...: confirms a planted bug in a scratch copy (applies, builds, tests pass, demo flips)
# and says which checks catch it there.
cd /verif
. /opt/vp/env.sh
bin=/tmp/gotitsa.seed.$$
(cd sa && GOFLAGS=-mod=vendor go build -o $bin .) || exit 2
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedw.$$; rm -rf "$w"; cp -a /repo $w
  d=/tmp/seedd.$$; rm -rf "$d"; cp -a $s $d; rm -f $d/*.diff $d/meta.json
  (cd $w && bash $d/demo.sh >/tmp/seed.$$.log 2>&1); c=$?
  ap=ok; (cd $w && git apply $s/patch.diff) || ap=FAIL
  b=ok; (cd $w && go build ./... >/tmp/seed.$$.b 2>&1) || b=FAIL
  t=ok; (cd $w && go test ./pkg/gotitnet ./pkg/peer ./pkg/torrent >/tmp/seed.$$.t 2>&1) || t=FAIL
  (cd $w && bash $d/demo.sh >/tmp/seed.$$.log2 2>&1); p=$?
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  mkdir -p /tmp/seedev.$$; cp known_findings.jsonl /tmp/seedev.$$/
  out=$(GOTIT_REPO=$w GOTIT_VERIF=/tmp/seedev.$$ timeout 900 $bin $prop 2>&1); rc=$?
  echo "$id prop=$prop apply=$ap build=$b tests=$t demo_clean=$c demo_patched=$p check_rc=$rc"
  [ $c -ne 0 ] && tail -5 /tmp/seed.$$.log; [ $b != ok ] && cat /tmp/seed.$$.b; [ $t != ok ] && tail -15 /tmp/seed.$$.t
  [ -n "$V" ] && { tail -8 /tmp/seed.$$.log2; echo "$out"; }
  rm -rf "$w" "$d" "/tmp/seedev.$$" /tmp/seed.$$.*
done
rm -f $bin
