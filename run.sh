#!/bin/bash
# run.sh build | run.sh PROP quick|thorough | run.sh replay FILE
cd "$(dirname "$0")" || exit 3
case "$1" in
build) exec python3 tools/check.py build ;;
replay) exec python3 tools/check.py replay "$2" ;;
*) exec python3 tools/check.py run "$1" "${2:-quick}" ;;
esac
