#!/bin/bash
# try.sh PATCH ID... : apply a patch to /repo, run the quick checks, undo it.
P=$(readlink -f "$1"); shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
git -C /repo apply "$P" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
  s=$(date +%s)
  out=$(/verif/check.sh $i 2>&1); rc=$?
  echo "$i rc=$rc $(( $(date +%s)-s ))s :: $(echo "$out" | head -c 400 | tr '\n' ' ')"
done
