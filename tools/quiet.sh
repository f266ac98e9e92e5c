#!/bin/bash
# all checks over a changed copy of the repository: quiet.sh DIR [SECONDS] [PROCS] [SEED]; prints those which are not quiet
cd "$(dirname "$0")/.." || exit 3
for c in $(seq -w 1 38); do
    out=$(RV_REPO=$1 RV_BUDGET_S=${2:-12} RV_PROCS=${3:-4} VERIF_SEED=${4:-1} ./check C$c 2>&1)
    rc=$?
    [ $rc -ne 0 ] && echo "C$c exit $rc: $(echo "$out" | tail -3 | cut -c1-700)"
done
echo done
