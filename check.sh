#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Encodes /repo's current source and decides the property's jobs (checks.txt).
cd "$(dirname "$0")" || exit 3
root=$PWD
if [ ! -x bin/eng ] || [ -n "$(find engine -newer bin/eng -name '*.go' -print -quit)" ]; then
	bash build.sh >&2 || exit 3
fi
exec bin/eng check -p "$1" -tier "${2:-quick}" -repo /repo -root "$root"
