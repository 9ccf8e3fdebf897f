#!/bin/bash
# trybug.sh ID [CHECK..]: demo on the unchanged tree and with the bug, then the checks with it
id=$1; shift
d=/verif/seeded/$id
t=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$t"' EXIT
git -C /repo archive HEAD | tar x -C "$t" || exit 2
( cd "$t" && "$d/demo.sh" >/dev/null 2>&1 ); echo "demo unchanged: $?"
( cd "$t" && git apply "$d/patch.diff" ) || exit 2
( cd "$t" && "$d/demo.sh" ); echo "demo with bug: $?"
for c in "$@"; do
  ( cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_REPO=$t VERIF_BUILD=$t/vb timeout 900 python3 tools/check.py "$c" quick 2>&1 | tail -4; echo "$c rc ${PIPESTATUS[0]}" )
done
