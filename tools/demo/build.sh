#!/bin/bash
# build.sh SRC OUT [flags/extra sources]: a program using basiclog, basicsys and basicmath, against /repo's built archives
R=/repo; src=$1; out=$2; shift 2
clang++-18 -std=c++11 -stdlib=libc++ -fopenmp -O0 -g -w -include /opt/vp/port/include/compat.h -I/opt/vp/port/include \
 -I$R/basicmath/src/stdafx -I$R/basiclog/include -I$R/basicsys/include -I$R/basicmath/include \
 "$src" "$@" -Wl,--start-group $R/_build/libbasicmath.a $R/_build/libbasicsys.a $R/_build/libbasiclog.a -Wl,--end-group -lpthread -o "$out"
