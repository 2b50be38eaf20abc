#!/bin/bash
# bc.sh OUTDIR [REPO]: bitcode of every unit of the library
set -e
out=$1; repo=${2:-/repo}; export XF="$3"
mkdir -p $out
cd $repo
ls src/*.c src/platform_linux/*.c | xargs -P8 -I{} sh -c 'clang-18 -O0 -Xclang -disable-O0-optnone -g -w -D_GNU_SOURCE -pthread -DXXH_STATIC_LINKING_ONLY -fPIC -DSPLINTERDB_PLATFORM_DIR=platform_linux -DGIT_VERSION=\"x\" -Iinclude -Isrc -Isrc/platform_linux $XF -emit-llvm -c {} -o '$out'/$(echo {} | tr / _ ).bc'
