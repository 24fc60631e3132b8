#!/bin/bash
# development: strict run of one property
cd "$(dirname "$0")"; . ./buildenv.sh; build_symx || exit 3
SYMX_STRICT=1 exec "$SYMX" check "$1"
