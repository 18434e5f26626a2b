#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
if [ ! -x bin/symgo ]; then ./build.sh >/dev/null 2>&1 || { echo "cannot build the checker"; exit 2; }; fi
exec ./bin/symgo check "$@"
