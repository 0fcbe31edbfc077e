#!/bin/bash
# Every check on the current tree; situations that are not reached are errors.
cd "$(dirname "$0")/.."
for p in $(python3-vt -c "import checks.registry as r; print(*sorted(r.PROPS))"); do
    VERIF_STRICT=1 python3-vt run_check.py "$p" || echo "$p FAILED $?"
done
