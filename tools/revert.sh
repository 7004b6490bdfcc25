#!/bin/bash
# revert.sh CHECK COMMIT... : run CHECK on a scratch copy of /repo with the commits reverted
c=$1; shift
d=$(mktemp -d /tmp/rev.XXXXXX)
cp -a /repo/. $d/
for k in "$@"; do git -C $d revert -n $k || { echo revert failed; exit 2; }; done
/verif/run.sh -check $c -repo $d -noevidence $REVARGS 2>&1 | cut -c1-${W:-300} | tail -${N:-12}
/bin/rm -rf "$d"
