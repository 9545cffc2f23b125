#!/bin/bash
# iso.sh NAME CMD...: runs CMD with private copies of /repo and /verif mounted over the real ones
# (in a mount namespace of its own), so that planted changes can be tried while work goes on.
set -e
d=/tmp/iso/$1; shift
mkdir -p $d
rm -rf "$d/repo" "$d/verif"
cp -a /repo $d/repo
cp -a /verif $d/verif
exec unshare -Urm bash -c 'mount --bind $0/repo /repo && mount --bind $0/verif /verif && cd /verif && exec "$@"' $d "$@"
