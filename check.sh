#!/bin/bash
# check.sh PROP quick|thorough   decide one property on /repo's working tree
# check.sh replay FILE           run one recorded counterexample on the compiled code (exit 1: reproduced)
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOMEMLIMIT=24GiB
if [ ! -x bin/symgo ] || [ -n "$(find engine -name '*.go' -newer bin/symgo -print -quit)" ]; then
	bash build.sh >&2 || exit 1
fi
if [ "$1" = replay ]; then
	exec ./bin/symgo -verif "$V" -replay "$2"
fi
exec ./bin/symgo -verif "$V" -prop "$1" -tier "${2:-quick}"
