# run rules $1 on all refactor trees
ls -d /tmp/rf/*/ | grep -v pyc_ | xargs -P 6 -I{} bash -c 'python3 -W ignore /tmp/rt.py '$1' {} 2>&1 | grep -A1 "^BAD\|Error\|floors \[[^]]" | sed "s,^,$(basename {}): ," | cut -c1-300'
