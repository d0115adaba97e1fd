#!/bin/bash
# usage: mut.sh name check 'sed-expr' file
rm -rf /tmp/m-$1; mkdir /tmp/m-$1; (cd /repo; git archive HEAD | tar x -C /tmp/m-$1)
sed -i -E "$3" /tmp/m-$1/$4
(cd /tmp/m-$1; diff -u /repo/$4 $4)
VERIF_REPO=/tmp/m-$1 VERIF_BUILD=/tmp/mbuild /verif/check $2 2>&1 | cut -c1-700; rm -rf /tmp/m-$1
