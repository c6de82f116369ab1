#!/bin/bash
# Recomputes ref/long_expected.txt from the reference implementations (slow; MD2 takes the longest).
# usage: gen_long.sh <directory holding one driver per header, named engine-<header>-*>
dir=${1:?}; out=$(dirname "$0")/long_expected.txt
{
for n in 4295491661 2147746053 537003091; do
	for d in "$dir"/engine-*; do for a in $("$d" --list | cut -d' ' -f1); do echo "$d --mode long --ref --only $a --n $n"; done; done
done
echo "$(ls "$dir"/engine-md2-* | head -1) --mode long --ref --only MD2 --n 134230019"
} | xargs -P 8 -I{} sh -c '{}' | sed -n 's/^REF //p' | sort > "$out.tmp" && mv "$out.tmp" "$out"
