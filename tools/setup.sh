#!/bin/sh
# builds the simulator around /repo in both weight-storage variants
cd "$(dirname "$0")/.." && python3 -c '
import sys; sys.path.insert(0, "tools"); import check
print(check.build(False)); print(check.build(True))'
