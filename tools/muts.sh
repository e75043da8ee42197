#!/bin/bash
# runs a list of one-line changes (lines: "ids|sed script|file") through tools/mut.sh and prints one line each
while IFS='|' read -r rest; do
  id="${rest%%|*}"; r="${rest#*|}"; file="${r##*|}"; sc="${r%|*}"
  printf "sed -i '%s' %s\nif git diff --quiet; then echo NOCHANGE; fi\n" "${sc//\'/\'\\\'\'}" "$file" > /tmp/mutscript.$$
  out=$(bash "$(dirname "$0")/mut.sh" "$id" < /tmp/mutscript.$$ 2>&1)
  if grep -q NOCHANGE <<< "$out"; then v=NOCHANGE; elif grep -q "VIOLATION" <<< "$out"; then v=caught; elif grep -qi "not compile\|error:" <<< "$out"; then v="BUILD?"; else v=MISSED; fi
  echo "$v  $id $sc"
done
rm -f /tmp/mutscript.$$
