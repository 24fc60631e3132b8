#!/bin/bash
# usage: check.sh <property id>     (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Rebuilds the symbolic executor against /repo's working tree and decides one property.
set -u
ID=$1
cd "$(dirname "$0")"
. ./buildenv.sh
case "$ID" in
  C27|C28) exec ./kani.sh "$ID" ;;
esac
mkdir -p evidence
case "$ID" in
  C08|C16)
    # the library chooses its map type by feature: decide the property on the no_std build first
    build_symx nostd || exit 3
    SYMX_EVIDENCE=$VERIF/evidence/.$ID.nostd.json "$SYMX_NOSTD" check "$ID"
    rc=$?
    if [ $rc -ne 0 ]; then cp -f "$VERIF/evidence/.$ID.nostd.json" "$VERIF/evidence/$ID.json" 2>/dev/null; exit $rc; fi
    export SYMX_NESTED=$VERIF/evidence/.$ID.nostd.json ;;
esac
build_symx || exit 3
exec "$SYMX" check "$ID"
