#!/bin/bash
# developer helper: builds the library if needed and one check; one.sh c01 [options of the check]
cd /verif
set -e
SRC=${SRC:-/tmp/sw/base}
B=${B:-build/dev-$(echo $SRC | tr / _)}
mkdir -p $B/obj
F="-std=c++17 -O2 -fopenmp -include cstdint -I$SRC/lib/include -I$SRC/lib/src"
pids=()
for f in $SRC/lib/src/*.cpp; do
  o=$B/obj/$(basename $f .cpp).o
  if [ ! -f $o ] || [ -n "$(find $SRC/lib/src $SRC/lib/include -newer $o -name '*.[ch]pp' | head -1)" ]; then g++ $F -c $f -o $o & pids+=($!); fi
done
[ $B/obj/engine.o -nt harness/engine.cpp -a $B/obj/engine.o -nt harness/engine.hpp ] || { g++ -std=c++17 -O2 -c harness/engine.cpp -o $B/obj/engine.o & pids+=($!); }
for p in ${pids[@]}; do wait $p; done
c=$1; shift
g++ $F -Wall -c harness/$c.cpp -o $B/$c.o
g++ -fopenmp $B/$c.o $B/obj/*.o -o $B/$c
time $B/$c --replaydir /tmp/rp --evidence $B/$c.json "$@"
