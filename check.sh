#!/bin/sh
# check.sh PROPERTY: decide one property from /repo's current source.
# Exit 0: every obligation discharged.  Exit 1: a VIOLATION line was printed.
cd "$(dirname "$0")" || exit 3
[ -x bin/gov ] || sh ./setup.sh >&2 || exit 3
exec bin/gov -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$PWD" -repo "${VERIF_REPO:-/repo}"
