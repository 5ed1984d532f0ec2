#!/bin/bash
# quiet.sh REPO [ID..]: all quick checks against another copy of the repository; prints those which are not quiet
R=$1; shift
cd "$(dirname "$0")/.." || exit 2
for i in ${@:-$(seq -f C%02g 1 35)}; do
  MC_REPO=$R MC_EVIDENCE=/tmp/quiet-evidence ./check $i quick > /tmp/quiet-$i.log 2>&1 || { echo "$i NOT QUIET"; grep -v '^ ' /tmp/quiet-$i.log | tail -5 | cut -c1-600; }
done
echo done
