#!/bin/bash
# Run with the repository as the current directory. Builds dnstable from it on top of in-memory stand-ins
# for libmtbl and libwdns (kit/) and runs demo.cc. Exit 0: behaves as it should.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export ASAN_OPTIONS=detect_leaks=0 LC_ALL=C
F="-g -O1 -w -fsanitize=address -DHAVE_CONFIG_H -D_GNU_SOURCE -DHAVE_CLOCK_GETTIME=1 -DHAVE_ENDIAN_H=1 -I$H/kit/include -I$R -I$R/dnstable -I$H/kit"
W=""
for w in clock_gettime gettimeofday time nanosleep malloc calloc realloc free strdup strndup __assert_fail; do W="$W -Wl,--wrap=$w"; done
for s in "$R"/dnstable/*.c "$R"/libmy/{my_format,my_alloc,ubuf,varint}.c; do
	[ -e "$s" ] || continue
	gcc -std=gnu99 $F -c "$s" -o "$T/$(basename "$s").o" & 
done
for s in "$H"/kit/a/*.cc; do g++ -std=c++17 $F -c "$s" -o "$T/$(basename "$s").o" & done
if grep -q cli.h "$H/demo.cc"; then	# the command line programs, as functions
	gcc -std=gnu99 $F -Dmain=lookup_main -c "$R/src/dnstable_lookup.c" -o "$T/lookup.o" &
	gcc -std=gnu99 $F -Dmain=dump_main -c "$R/src/dnstable_dump.c" -o "$T/dump.o" &
	gcc -std=gnu99 $F -c "$R/libmy/argv.c" -o "$T/argv.o" &
fi
g++ -std=c++17 $F -DKIT_MAIN -c "$H/demo.cc" -o "$T/demo.o" &
wait
g++ -fsanitize=address "$T"/*.o $W -o "$T/demo" || { echo "demo does not build"; exit 3; }
timeout 120 "$T/demo"
