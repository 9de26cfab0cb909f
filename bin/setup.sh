#!/bin/bash
# Builds everything the checks need, offline, from the committed files and /repo's tree.
d=$(dirname "$0")
"$d/cin.sh" setup || exit 1
"$d/hot.sh" setup || exit 1
