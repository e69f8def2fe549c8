#!/bin/bash
# fixed.sh PROP SUBJECT-PREFIX TEXT: append a fixed: line for the /repo commit with that subject
h=$(git -C /repo log --format='%h %s' | grep -F "fix: $2" | head -1 | cut -d' ' -f1); [ -n "$h" ] || { echo "no commit: $2"; exit 1; }
echo "fixed: property=$1 $h $3" >> "$(dirname "$0")/../known_findings.txt"
