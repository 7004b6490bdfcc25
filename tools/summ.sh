#!/bin/sh
# summ.sh ID [args]: run a check and show what was not complete
id=$1; shift
/verif/run.sh -check $id -v "$@" 2>&1 | grep -E "^# |VIOL|KNOWN|quiet|no viol|fails=|^VF_|loading|native replay" | grep -vE "unsupported=0 unknown=0 hang=0 .*picks=map\[\] *$" | cut -c1-${W:-260} | head -${N:-25}
