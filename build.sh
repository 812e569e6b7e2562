#!/bin/bash
# [DSIM_FLAGS=...] build.sh <family> [outdir]: builds the simulator binary of one harness family from /repo's current working tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
fam=$1
out=${2:-$here/build/$fam}
repo=${CO_ECS_REPO:-/repo}
mkdir -p "$out"
SAN="-std=c++20 -O1 -g -fno-omit-frame-pointer -fsanitize=thread -Wno-tsan -w -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -mmemcpy-strategy=libcall:-1:noalign -mmemset-strategy=libcall:-1:noalign -I$repo/include $DSIM_FLAGS"
pids=()
objs=()
for f in "$here"/harness/$fam*.cpp; do
    o="$out/$(basename "$f" .cpp).o"
    objs+=("$o")
    ( g++ $SAN -c "$f" -o "$o" && objcopy --redefine-sym memcpy=dsim_memcpy --redefine-sym memmove=dsim_memmove --redefine-sym memset=dsim_memset --redefine-sym memcmp=dsim_memcmp "$o" ) &
    pids+=($!)
done
for f in rt driver; do
    g++ -std=c++20 -O2 -g -w -c "$here/sim/$f.cpp" -o "$out/$f.o" &
    pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -no-pie -rdynamic "${objs[@]}" "$out/rt.o" "$out/driver.o" -o "$out/drv" -lpthread -ldl
