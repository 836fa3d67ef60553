#!/bin/bash
# run the stable tests of /repo and compare with the baseline
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1; tail -3 /tmp/test.log
