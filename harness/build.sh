#!/bin/bash
# build.sh NAME OUT: compiles one harness against /repo's current headers
cd "$(dirname "$0")"
exec g++ -std=c++14 -O1 -g0 -w -fopenmp -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute -fno-sanitize-recover=all \
  -Wl,--wrap=GOMP_parallel,--wrap=GOMP_barrier,--wrap=GOMP_single_start,--wrap=mmap,--wrap=munmap,--wrap=madvise \
  ${CXXEXTRA} -I"${PIGO_INC:-/repo/include}" "$1.cpp" -o "$2"
