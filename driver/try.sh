#!/bin/bash
# driver/try.sh PATCH ID...   run checks against /repo with a patch applied, then undo it
p=$(realpath "$1"); shift
cd /verif; git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$p" || exit 2
for c in "$@"; do ./check $c 2>/tmp/try.err; echo "$c -> $?"; done
git -C /repo checkout -- .
