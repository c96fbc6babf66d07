#!/bin/bash
# development helper: applies a seeded change to /repo, runs the given checks, undoes it
# usage: catch.sh SEED CHECK...
s="$1"; shift
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo not clean"; exit 2; }
git -C /repo apply "/verif/seeded/$s/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do python3-vt /verif/check.py "$c"; echo "  [$s] $c exit $?"; done
