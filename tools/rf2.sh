#!/bin/bash
# rf2 T1 T2: second-order refactoring
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
d=/tmp/rq/$1.$2; rm -rf /tmp/rq/$1.$2 ; mkdir -p $d; (cd /repo && git archive HEAD) | tar x -C $d
for t in $1 $2; do
 ov=$(/tmp/refac -dir $d -t $t -o $d.out 2>/dev/null)
 IFS=,; for x in $ov; do cp "${x#*=}" "$d/${x%%=*}"; done; unset IFS
done
/tmp/bc -dir $d -prop all > $d.txt 2>&1
echo "== $1 $2 viol: $(grep -o 'VIOLATION property=[A-Z0-9]*' $d.txt | sort | uniq -c | awk '{print $3":"$1}' | sed s/property=// | tr '\n' ' ')"
grep -m3 -i 'type-check\|load' $d.txt | grep -v ' \[' | cut -c1-300
grep ' \[' $d.txt | cut -c1-240 | head -${N:-6}
rm -rf $d $d.out
