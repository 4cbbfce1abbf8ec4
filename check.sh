#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [extra arguments]
cd "$(dirname "$0")" || exit 3
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
shift
shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
exec python3-vt -m pbt.run "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" "$@"
