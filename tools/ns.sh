#!/bin/bash
# tools/ns.sh NAME COMMAND...: run a command in a private mount namespace with
# scratch copies, /tmp/am-NAME, in the place of /repo, /verif and /tmp.
d=/tmp/am-$1; shift
mkdir -p $d/tmp
[ -d $d/repo ] || cp -a /repo $d/repo
[ -d $d/verif ] || cp -a /verif $d/verif
exec unshare -Urm bash -c '
  d=$1; shift
  mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind $d/tmp /tmp || exit 1
  cd /verif && exec "$@"' x $d "$@"
