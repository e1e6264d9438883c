#!/bin/bash
exec python3 "$(dirname "$(realpath "$0")")/tools/check.py" "$@"
