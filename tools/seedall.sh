#!/bin/bash
# seedall.sh [check] ID...: seedtest for several, one after another
m=""; [ "$1" = check ] && { m=check; shift; }
for i in "$@"; do bash "$(dirname "$0")"/seedtest.sh $i $m 2>&1; done
