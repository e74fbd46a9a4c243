#!/bin/bash
# fixc.sh PROP "message" : commit the working-tree change of /repo as a fix and record it
set -e; K=$(dirname "$(readlink -f "$0")")
cd ${VERIF_REPO:-/repo}; git commit -qam "fix: $2"
echo "fixed: property=$1 $(git rev-parse --short=10 HEAD) $2" >> $K/known_findings.txt
git log --oneline | head -1
