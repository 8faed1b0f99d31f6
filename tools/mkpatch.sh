#!/bin/bash
# mkpatch.sh ID: takes /repo's uncommitted change as the patch of seeded/ID and undoes it
set -e
mkdir -p /verif/seeded/$1
git -C /repo diff > /verif/seeded/$1/patch.diff
test -s /verif/seeded/$1/patch.diff
git -C /repo checkout -- .
