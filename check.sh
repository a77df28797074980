#!/bin/bash
# check.sh ID [quick|thorough]    decide one property
# check.sh --replay FILE          run the calls of a violation again
cd "$(dirname "$0")" || exit 2
if [ "$1" = --replay ]; then exec python3 tools/replay.py "$2"; fi
exec python3 tools/driver.py "$@"
