#!/bin/sh
# check.sh <property> <quick|thorough> | check.sh setup | check.sh replay FILE
cd "$(dirname "$0")" || exit 2
case "$1" in
setup|replay) exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m dst.driver "$@" ;;
esac
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m dst.driver check "$1" --tier "${2:-quick}"
