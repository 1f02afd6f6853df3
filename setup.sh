#!/bin/bash
# builds the SSA front end into /verif/.cache (the checks build it themselves when it is missing)
H="$(cd "$(dirname "$0")" && pwd)"
exec python3-vt -c "
import sys; sys.path.insert(0,'$H/engine')
import driver; print(driver.build_ssadump('/tmp', driver.goenv()))"
