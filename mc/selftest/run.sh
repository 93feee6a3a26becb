#!/bin/bash
# Builds and runs the runtime's self-test in a scratch directory: exit 0 iff P/x* report a violation and the rest pass.
set -e
H=$(cd "$(dirname "$0")/.." && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ -std=c++20 -O2 -g -fno-stack-protector -fcf-protection=none -c "$H/rt.cpp" -o "$D/rt.o"
g++ -std=c++20 -O1 -g -fsanitize=thread -fno-stack-protector -fcf-protection=none -I"$H" -c "$H/selftest/h_prim.cpp" -o "$D/p.o"
g++ -no-pie -static-libstdc++ -static-libgcc -Wl,-z,now -Wl,-z,muldefs "$D/p.o" "$D/rt.o" -o "$D/p" -lpthread
cd "$D"; mkdir replays; ./p --jobs 4 > out 2>&1 || true
awk '/^P\// { n++; x = $1 ~ /^P\/x/; bad = $2 != (x ? "st=3" : "st=1"); if (bad) { print; f++ } } END { print n " scenarios, " f+0 " unexpected"; exit f > 0 || n < 40 }' out
