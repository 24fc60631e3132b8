#!/bin/bash
# builds the symbolic executor once, so that the checks find its dependencies compiled
cd "$(dirname "$0")"
. ./buildenv.sh
build_symx && build_symx nostd && echo built "$SYMX"
