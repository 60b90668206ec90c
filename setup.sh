#!/bin/bash
# Builds every variant of the monitors once (plain, race, address sanitizer, block counters), to show that they build.
root=$(cd "$(dirname "$0")" && pwd)
for id in C01 C19 C21 C23; do
	VERIF_BUILD_ONLY=1 "$root/run.sh" $id || exit 1
done
echo "setup done"
