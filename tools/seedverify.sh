#!/bin/bash
# developer helper: seedverify.sh ID... : confirm planted changes in a scratch copy of /repo (/tmp/sw)
. /verif/env.sh
[ -d /tmp/sw ] || cp -a /repo /tmp/sw
git -C /tmp/sw fetch -q /repo HEAD && git -C /tmp/sw reset -q --hard FETCH_HEAD
for id in "$@"; do
  s=/verif/seeded/$id; cd /tmp/sw; git checkout -q -- .
  bash $s/demo.sh >/tmp/sv.$id.clean 2>&1; c=$?
  if ! git apply $s/patch.diff; then echo "$id: DOES NOT APPLY"; continue; fi
  bash $s/demo.sh >/tmp/sv.$id.bug 2>&1; b=$?
  if [ -z "$NOTESTS" ]; then
  INSTA_UPDATE=no TRYBUILD=wip NO_COLOR=1 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >/tmp/sv.$id.test 2>&1; t=$?
  else t=skipped; fi
  git checkout -q -- .
  echo "$id: demo clean=$c bug=$b ($(grep -a "^error\[\|could not compile" /tmp/sv.$id.bug | head -1)) tests=$t $(grep -aE '^test .*FAILED' /tmp/sv.$id.test 2>/dev/null | head -3 | tr '\n' ' ')"
done
