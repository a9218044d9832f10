#!/bin/bash
# register a property's harness module (developer helper): addprop.sh 10
cd /verif
l=c$1; u=C$1
grep -q "mod $l;" harness/src/props/mod.rs || sed -i "0,/^$/s//mod $l;\n/; s/^        _ => panic/        \"$u\" => $l::run,\n        _ => panic/" harness/src/props/mod.rs
[ -f spec/$u.cfg ] || sed s/C07/$u/ spec/C07.cfg > spec/$u.cfg
