# allq.sh : all Q mutations of all specs under all rules
R=${R:-c01,c02,c03,c04,c05,c06,c07,c08,c09,c10,c12,c13,c14,c15,c16,c17,c18,c19,c20,c21,c22,c23,c24}
export R
ls /tmp/m[0-9]*.txt | xargs -P 1 -I{} bash -c 's={}; n=$(grep -oE "^## \S+ Q" $s | awk "{print \$2}"); [ -z "$n" ] && exit; /opt/venv/bin/python -W ignore /tmp/mb.py $R $s $n > /tmp/allq.$(basename $s) 2>&1'
grep -H "BAD\|^FAIL\|rror\|NOT FOUND" /tmp/allq.m*.txt | grep -v "parameter without effect"
