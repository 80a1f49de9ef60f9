#!/bin/bash
# tools/against.sh <patch> <check ids>: runs quick checks on a scratch copy of /repo with the patch applied
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/against.XXXXXX); cp -a /repo/. $d/
git -C $d apply "$p" || { rm -rf "$d"; exit 2; }
for i in "$@"; do DV_REPO=$d bin/check $i ${TIER:-quick} 2>&1 | grep -a "^OK\|^VIOLATION\|^  [^ ].* times)\|Error\|^KNOWN" | awk '/^  /{if(++n>4)next}1' | cut -c1-${W:-220}; done
rm -rf "$d"
