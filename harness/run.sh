#!/bin/bash
# run.sh NAME SECS: development helper
d=/tmp/x/h; mkdir -p $d/dir
"$(dirname "$0")"/build.sh $1 $d/$1 && ASAN_OPTIONS=detect_leaks=0:malloc_fill_byte=171:max_malloc_fill_size=10000000:detect_odr_violation=0 $d/$1 run ${3:-1} ${2:-3} $d/dir $d/$1.case
