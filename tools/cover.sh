#!/bin/bash
# Which statements of go-trees do the checks never reach?  usage: cover.sh PROPERTY...
d=$(mktemp -d /tmp/verif-cover-XXXXXX)
export GOCOVERDIR=$d/data
mkdir "$GOCOVERDIR"
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
for p in "$@"; do python3 "$here/bin/check.py" "$p" quick | tail -1; done
cd /repo && go tool covdata textfmt -i="$GOCOVERDIR" -o="$d/cover.txt"
grep -v "^verifharness" "$d/cover.txt" > "$d/c.txt"; mv "$d/c.txt" "$d/cover.txt"
echo "not reached:"
grep ' 0$' "$d/cover.txt" | sed 's/.*go-trees\///; s/ 0$//' | sort -t: -k1,1 -k2,2n
rm -rf "$d"
