#!/bin/sh
# check.sh ID: decides one property on /repo's current source.
# Exit 0: holds. Exit 1: a VIOLATION line says what does not (or could not be decided).
cd "$(dirname "$0")" || exit 1
[ -x bin/kmcheck ] || sh ./setup.sh
timeout -k 5 800 bin/kmcheck -prop "$1"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	mkdir -p evidence
	echo "the checker stopped with status $rc: undecided" > "evidence/$1.replay.txt"
	echo "VIOLATION property=$1 replay=evidence/$1.replay.txt"
	exit 1
fi
exit $rc
