#!/bin/bash
# rf TRANSFORM [extra refac args]  : run all checks on transformed tree
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
t=$1; shift
o=/tmp/rfo/$t$(echo "$*" | tr -c 'a-z0-9' _); mkdir -p $o; find $o -name '*.go' -delete
ov=$(/tmp/refac -dir /repo -t $t -o $o "$@" 2>$o/log)
[ -z "$ov" ] && { echo "== $t: nothing"; exit; }
/tmp/bc -dir /repo -prop ${PROP:-all} -overlay "$ov" > $o/out 2>&1
echo "== $t $*: edits $(awk '{s+=$2} END{print s}' $o/log) rc=$? viol: $(grep -o 'VIOLATION property=[A-Z0-9]*' $o/out | sort | uniq -c | awk '{print $3":"$1}' | sed s/property=// | tr '\n' ' ')"
grep -m5 -i 'type-check\|load' $o/out | grep -v ' \[' | cut -c1-200
grep ' \[' $o/out | cut -c1-240 | head -${N:-12}
