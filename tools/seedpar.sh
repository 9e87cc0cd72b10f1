#!/bin/bash
# seedpar.sh ID...: seedrun.sh -t in private mount namespaces over scratch copies of /repo and /verif, three at a time
one() {
  D=/tmp/sr_$1; rm -rf "/tmp/sr_$1"; mkdir -p $D; cp -a /repo $D/repo; cp -a /verif $D/verif
  unshare -Urm bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && bash tools/seedrun.sh ${T--t} $1"
  rm -rf "/tmp/sr_$1"
}
export -f one
printf '%s\n' "$@" | xargs -P ${P:-3} -I{} bash -c 'one {}'
