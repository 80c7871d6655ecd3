#!/bin/bash
# tryseed.sh ID...: confirm planted bugs in a scratch copy (build, tests, demo)
for id in "$@"; do
  w=/tmp/seedtry_$id; rm -rf "/tmp/seedtry_$id"; cp -a /repo $w
  rm -rf "/tmp/seedtry_$id/_build"
  d=/verif/seeded/$id
  (cd $w && bash $d/demo.sh >/dev/null 2>&1); a=$?
  (cd $w && git apply $d/patch.diff) || echo "$id: patch does not apply"
  sed "s|/repo|$w|g" /opt/vp/build.sh > $w/b.sh
  sed "s|/repo|$w|g" /opt/vp/test.sh > $w/t.sh
  bash $w/b.sh > $w/b.log 2>&1 || echo "$id: does not build"
  t=$(cd $w && bash $w/t.sh $w/t.json 2>/dev/null | tail -1)
  (cd $w && bash $d/demo.sh >/dev/null 2>&1); b=$?
  echo "$id: demo clean=$a patched=$b tests: $t"
  rm -rf "/tmp/seedtry_$id"
done
