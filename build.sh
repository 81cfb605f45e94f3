#!/bin/bash
# Builds the simulator from /repo's working tree into $1 (default /verif/build). Usage: build.sh [outdir]
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}; B=${1:-$V/build}
mkdir -p $B/repo $B/sim
SAN="-fsanitize=address -fno-omit-frame-pointer"
CF="-std=gnu99 -O1 -g1 -w $SAN -fsanitize=bounds -fno-sanitize-recover=bounds -fsanitize-coverage=trace-pc-guard -include $V/sim/seam.h -I$R/include -I$R/src -I$R/src/vm -I$R/src/compiler -I$R/src/cli -I/usr/include/cjson -DCND_VERSION=\"sim\" -DCND_GIT_HASH=\"sim\""
XF="-std=c++17 -O1 -g1 -Wall -Wno-misleading-indentation $SAN -I$R/include -I$V/sim -I/usr/include/cjson"
MK=$B/Makefile
{
 echo "all: $B/csim"
 objs=""
 for f in $R/src/vm/*.c $R/src/compiler/*.c $R/src/cli/*.c $R/src/tools/*.c; do
  [ -f "$f" ] || continue
  o=$B/repo/$(basename $(dirname $f))_$(basename $f .c).o; extra=""
  case $f in */cli/main.c) extra="-Dmain=cnd_main";; */tools/*) extra="-Dmain=$(basename $f .c)_main";; esac
  objs="$objs $o"
  echo "$o: $f $(ls $R/include/*.h $R/src/*/*.h | tr '\n' ' ') $V/sim/seam.h"
  printf '\tclang %s %s -c %s -o %s && objcopy --rename-section .data=repo_data --rename-section .bss=repo_bss,alloc,load,data,contents %s\n' "$(echo "$CF" | sed 's/"/\\"/g')" "$extra" $f $o $o
 done
 for f in $V/sim/*.cpp $V/sim/props/*.cpp; do
  o=$B/sim/$(basename $f .cpp).o; objs="$objs $o"
  echo "$o: $f $(ls $V/sim/*.hpp $R/include/*.h | tr '\n' ' ')"
  printf '\tclang++ %s -c %s -o %s\n' "$XF" $f $o
 done
 echo "$B/csim: $objs"
 printf '\tclang++ -fsanitize=address -fsanitize=bounds -o $@ $^ -lcjson -lm\n'
} > $MK
make -s -j$(nproc) -f $MK
