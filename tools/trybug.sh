#!/bin/bash
# usage: tools/trybug.sh [-t] SEED_ID [PROP...]   development aid: try a planted bug in a scratch copy (/tmp/wt); -t also runs demo and tests
cd "$(dirname "$0")/.." || exit 1
T=; [ "$1" = -t ] && { T=1; shift; }
S=$PWD/seeded/$1; ID=$1; shift
W=/tmp/wt
[ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
PROPS="$*"; [ -n "$PROPS" ] || PROPS=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
if [ -n "$T" ]; then (cd $W && bash $S/demo.sh >/tmp/wt.demo0 2>&1); echo "$ID demo unchanged: $?"; fi
git -C $W apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ -n "$T" ]; then
  (cd $W && bash $S/demo.sh >/tmp/wt.demo1 2>&1); echo "$ID demo patched: $?"
  sed 's#/repo#/tmp/wt#g' /opt/vp/env.sh > /tmp/wt.env
  (. /tmp/wt.env; cd $W; cargo nextest run --workspace --offline --tool-config-file vp:/opt/vp/nextest.toml --profile vp 2>&1 | tail -4)
fi
O=$(mktemp -d)
GV_REPO=$W GV_CACHE=/tmp/wtcache bash ./facts.sh $O all || exit 1
for p in $PROPS; do GV_FACTS=$O python3 -m gv.run $p > /tmp/wt.out 2>&1; echo "$ID $p exit $?"; cut -c1-400 /tmp/wt.out | head -${LINES_OUT:-6}; done
rm -rf $O
git -C $W checkout -q -- .
