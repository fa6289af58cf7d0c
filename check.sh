#!/bin/sh
exec python3 "$(dirname "$0")/tools/check.py" "$@"
