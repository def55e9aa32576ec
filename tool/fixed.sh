#!/bin/bash
# prints "fixed:" lines for commits given as PROP COMMIT pairs on stdin
while read p c; do echo "fixed: property=$p $(git -C /repo log -1 --format='%h %s' $c | sed 's/fix: //')"; done
