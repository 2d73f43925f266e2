#!/bin/sh
# Builds the replayer against /repo and runs one script.
set -e
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
for p in 0 1 2 3; do
  g++ -std=c++1z -O1 -g1 -DPART=$p -fsanitize=address,undefined -fno-sanitize-recover=all -w -include /verif/extract/prelude.hpp -I/repo/include \
    -c /verif/explore/explore.cpp -o "$d/$p.o" &
done
wait
g++ -fsanitize=address,undefined "$d"/*.o -o "$d/explore"
ASAN_OPTIONS=detect_leaks=0 "$d/explore" replay "$1"
