#!/bin/bash
# tools/iso.sh CMD...: run CMD in a private mount namespace where /repo is a scratch copy
# (so that experiments never touch the real /repo); evidence goes to a scratch directory too
d=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo "$d/repo"; mkdir "$d/ev"
unshare -Urm bash -c 'mount --bind "$0/repo" /repo; mount --bind "$0/ev" /verif/evidence; cd /verif; "$@"' "$d" "$@"
rc=$?
rm -rf "$d"
exit $rc
