#!/bin/bash
# fork sites of one harness entry: forks.sh HARNESS ENTRY [seconds]
cd "$(dirname "$0")/.."
bc=$(python3 -c "
import build,sys
build.engine(); build.lib_objs(); r=build.harness_bc('$1')
print(r)")
MSE_FORKS=1 .build/mse "$bc" --entry $2 --out /tmp/forks.json --max-time ${3:-30} --max-preempt 0 --max-timeouts 0 2>&1 | sort -k2nr | head -${4:-30}
