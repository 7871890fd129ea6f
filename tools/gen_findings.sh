#!/bin/bash
# Rewrites the "fixed:" part of known_findings.txt from tools/fixmap.txt and the commit titles in /repo.
cd "$(dirname "$0")/.." || exit 1
{
 echo "# Findings. 'known: property=<id> match=<text>' lines are defects left in the tree and suppress exactly the"
 echo "# violations whose message contains the text; 'fixed:' lines record repairs and suppress nothing."
 grep '^known:' known_findings.txt 2>/dev/null
 while read -r c ids; do for i in $ids; do
  echo "fixed: property=$i $(git -C /repo log -1 --format=%h "$c") $(git -C /repo log -1 --format=%s "$c" | sed 's/^fix: //')"
 done; done < tools/fixmap.txt
} > known_findings.tmp && mv known_findings.tmp known_findings.txt
