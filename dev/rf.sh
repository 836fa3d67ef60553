# rf.sh TRANSFORM... : rewrite the package, run its tests, run all rules; a + joins transforms
R=${R:-c01,c02,c03,c04,c05,c06,c07,c08,c09,c10,c11,c12,c13,c14,c15,c16,c17,c18,c19,c20,c21,c22,c23,c24,c25,c26}
one() {
t=$1; d=/tmp/rf/$t
python3 -W ignore /verif/dev/refac.py $d ${t//+/ } 2>/tmp/rf.$t.err || { echo "$t GENERATION"; tail -2 /tmp/rf.$t.err; return; }
if [ -z "$NOTEST" ]; then cp -r /repo/tests $d/; (cd $d && PYTHONPYCACHEPREFIX=/tmp/rf/pyc_$t /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -4 > /tmp/rf.$t.test); fi
python3 -W ignore /tmp/rt.py $R $d > /tmp/rf.$t.out 2>&1
echo "== $t tests: $(tail -1 /tmp/rf.$t.test 2>/dev/null)"
grep -A1 "^BAD\|Error\|^Traceback" /tmp/rf.$t.out | grep -v "^--\|parameter without effect\|influences neither its result" | cut -c1-${W:-330} | head -${H:-14}
grep -o "^c.. .*floors \[.[^]]*\]" /tmp/rf.$t.out | sed "s,counts.*floors,FLOORS," ; tail -1 /tmp/rf.$t.out | cut -c1-300
}
export -f one; export R NOTEST H W
mkdir -p /tmp/rf
printf '%s\n' "$@" | xargs -P ${P:-6} -I{} bash -c 'one {}'
