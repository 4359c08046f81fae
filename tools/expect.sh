#!/bin/bash
# expect.sh NAME...: writes what the demonstration observes on the unchanged tree as expected.txt and prints it for review.
for n in "$@"; do
  d=/verif/seeded/$n
  : > $d/expected.txt
  bash $d/demo.sh | sed -n 's/^+//p' | tail -n +2 > /tmp/expected.txt
  cp /tmp/expected.txt $d/expected.txt
  echo "== $n"; cat $d/expected.txt
done
