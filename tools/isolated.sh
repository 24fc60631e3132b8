#!/bin/bash
# isolated.sh SLOT COMMAND...: runs a command with /repo and /verif replaced by private copies (bind mounts in a
# private mount namespace), so that planted bugs can be tried without touching the working trees.
slot=$1; shift
d=/tmp/rt/$slot
mkdir -p "$d/repo" "$d/verif"
rsync -a --delete --exclude target /repo/ "$d/repo/" 2>/dev/null || { rm -rf "/tmp/rt/$slot/repo"; cp -a /repo "$d/repo"; }
if command -v rsync >/dev/null; then rsync -a --delete --exclude .git --exclude seeded /verif/ "$d/verif/"; else
  (cd /verif && tar --exclude=./.git --exclude=./seeded --exclude=target --exclude=./work --exclude=./evidence -cf - .) | tar -C "$d/verif" -xf -
fi
mkdir -p "$d/verif/evidence"
exec unshare -m bash -c 'd=$1; shift; mount --bind "$d/repo" /repo && mount --bind "$d/verif" /verif && cd /verif && exec "$@"' _ "$d" "$@"
