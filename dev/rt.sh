python3 -W ignore /tmp/rt.py "$@" 2>&1 | cut -c1-500 | head -60
