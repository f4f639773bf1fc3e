#!/bin/bash
# negc.sh "NEG..." c_x[,c_y]: behaviour-preserving edits on copies of /repo (no build), checks run in parallel; all must report 0 new violations
one() { n=$1; d=/tmp/camp/n_$n; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d; (cd $d; patch -s -p1 --binary < /verif/neg/$n.diff || echo PATCHFAIL $n)
 for c in ${2//,/ }; do echo "$n $c $(VERIF_REPO=$d timeout 900 python3 /verif/tools/one.py $c 2>&1 | head -5 | cut -c1-230)"; done; find $d -delete; }
export -f one
printf '%s\n' $1 | xargs -P 4 -I{} bash -c "one {} $2"
