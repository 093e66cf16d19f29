#!/bin/bash
# run.sh WT OUT [PROPS]
wt=$1; out=$2; shift 2
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27}
: > $out
for p in $props; do
 r=$(SYMX_REPO=$wt timeout 900 /verif/bin/check $p 2>&1); echo "$p rc=$? $(echo "$r" | head -4 | cut -c1-300)" >> $out
done
echo done >> $out
