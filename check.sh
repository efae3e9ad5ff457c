#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ "$1" = C27 ]; then # the Python client
	exec python3-vt -B -m pyver.check -root "$PWD" -dir /repo -prop "$1" -tier "${2:-quick}"
fi
./build.sh || exit 2
exec ./bin/gover check -root "$PWD" -dir /repo -prop "$1" -tier "${2:-quick}"
