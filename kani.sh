#!/bin/bash
# usage: kani.sh C27|C28   decides one property with Kani (CBMC) on the MIR of /repo's current tree
cd "$(dirname "$0")"
. ./buildenv.sh
exec python3 tools/kani_run.py "$1"
