#!/bin/bash
# Run with the repository as the current directory. Builds demo.c with the libmy sources it names in its
# first line and runs it in a scratch directory. Exit 0: behaves as it should.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
S=""; L=""
for s in $(head -1 "$H/demo.c" | sed -n 's,^// sources:,,p'); do case $s in -*) L="$L $s";; *) S="$S $R/libmy/$s";; esac; done
gcc -std=gnu99 -g -O1 -w -fsanitize=address -D_GNU_SOURCE -DHAVE_CLOCK_GETTIME=1 -DHAVE_CLOCK_NANOSLEEP=1 -include stdbool.h -I"$R" -I"$R/libmy" "$H/demo.c" $S -o "$T/demo" $L -lpthread -lm || { echo "demo does not build"; exit 3; }
mkdir "$T/d" && cd "$T/d" && ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/demo"
