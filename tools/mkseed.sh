#!/bin/bash
# mkseed.sh <id> : after editing /repo, records the diff as seeded/<id>/patch.diff and restores /repo
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
test -s $d/patch.diff && wc -l $d/patch.diff
