#!/bin/bash
# mkseed.sh ID PROPERTY : takes the uncommitted change in /repo as the seed's patch
set -e
ID=$1
mkdir -p /verif/seeded/$ID
git -C /repo diff > /verif/seeded/$ID/patch.diff
git -C /repo checkout -- .
