#!/bin/bash
# check.sh <property> [quick|thorough]
d=$(cd "$(dirname "$0")" && pwd)
export VERIF_SEED=${VERIF_SEED:-1}
tier=${2:-${VERIF_TIER:-quick}}
if [ ! -x "$d/checker/bin/checker" ] || [ -n "$(find "$d/checker" -maxdepth 2 \( -name '*.go' -o -name '*.txt' -o -name go.mod \) -newer "$d/checker/bin/checker" | head -1)" ]; then
  "$d/build.sh" || exit 2
fi
exec "$d/checker/bin/checker" check "${REPO:-/repo}" "$d" "$1" "$tier"
