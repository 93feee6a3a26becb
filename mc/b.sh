#!/bin/bash
# dev helper: b.sh h_x.cpp repo-sources... -> /tmp/mcb/<h_x>
set -e
D=/tmp/mcb; mkdir -p $D
[ $D/rt.o -nt rt.cpp ] || g++ -std=c++20 -O2 -g -fno-stack-protector -fcf-protection=none -Wall -c rt.cpp -o $D/rt.o
h=$1; shift; n=$(basename $h .cpp)
F="-std=c++20 -O1 -g -fsanitize=thread -fno-stack-protector -fcf-protection=none -I${R:-/repo}/sdk/include -I${R:-/repo}/sdk/src -I."
O=()
for s in $h $(ls ${n}2.cpp 2>/dev/null) "$@"; do o=$D/$n-$(basename $s .cpp).o; g++ $F -c $s -o $o & O+=($o); done; wait
g++ -no-pie -static-libstdc++ -static-libgcc -Wl,-z,now -Wl,-z,muldefs ${O[@]} $D/rt.o -o $D/$n -lpthread
