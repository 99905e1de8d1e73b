#!/bin/bash
# usage: mk.sh <id>   (scratch copy in /tmp/seedrepo already changed): records the patch against /repo's HEAD
set -e
id=$1; D=/verif/seeded/$id; mkdir -p $D
git -C /tmp/seedrepo diff > $D/patch.diff
git -C /tmp/seedrepo checkout -q -- .
