for n in 05 06 07 10 12 12b 13 14 16 17 18 19 22 23; do r=c${n%b}; printf '%s\n' "$r /tmp/m$n.txt"; done | xargs -P 7 -L1 bash -c 'python3 -W ignore /tmp/rt.py $0 2>&1 | grep -c "^BAD\|Traceback" > /tmp/am.$0.base; /opt/venv/bin/python -W ignore /tmp/mb.py $0 $1 > /tmp/am.$(basename $1).out 2>&1'
for n in 05 06 07 10 12 12b 13 14 16 17 18 19 22 23; do echo "$n: $(grep "^FAIL\|NOT FOUND\|SYNTAX\|Error" /tmp/am.m$n.txt.out | cut -c1-60 | tr '\n' ';') ok $(grep -c ^ok /tmp/am.m$n.txt.out)"; done
