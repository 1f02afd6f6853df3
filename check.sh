#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--only lemma,...] [--replay file]
cd "$(dirname "$0")" || exit 2
exec python3-vt engine/driver.py "$@"
