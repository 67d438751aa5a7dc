#!/bin/bash
# dev helper: rebuild and run the repository's own tests, quietly
bash /opt/vp/build.sh >/tmp/t_build.log 2>&1 || { tail -30 /tmp/t_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t_test.json 2>/dev/null | tail -1
