#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root}
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
bash gosym/build.sh >/dev/null || { echo "cannot build the engine" >&2; exit 3; }
exec ./bin/gosym -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
