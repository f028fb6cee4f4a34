# $1 = copy, rest = ids
d=$1; shift
for p in "$@"; do PV_REPO=$d python3-vt /verif/check.py $p > /tmp/rr.$p.txt 2>&1; echo "$p rc=$?"; grep -E "^unit|^violated|VIOLATION|FAILED" /tmp/rr.$p.txt | grep -v " proved " | cut -c1-260; grep "evaluations=[0-2] " /tmp/rr.$p.txt; done
