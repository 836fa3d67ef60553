# mbs.sh RULES SPEC [names]: baseline then summary
r=$(python3 -W ignore /tmp/rt.py $1 2>&1 | grep -c "^BAD\|Traceback"); if [ "$r" != 0 ]; then echo BASELINE NOT CLEAN; python3 -W ignore /tmp/rt.py $1 2>&1 | cut -c1-300| tail -8; exit 1; fi
rules=$1; spec=$2; shift 2
/opt/venv/bin/python /tmp/mb.py $rules $spec "$@" > /tmp/mbs.out 2>&1
grep -A3 "^FAIL\|NOT FOUND\|SYNTAX\|Error" /tmp/mbs.out | cut -c1-330 | head -50; grep -c ^ok /tmp/mbs.out
