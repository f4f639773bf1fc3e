#!/bin/bash
# build_img.sh SRC OUT [extra sources/flags]: a program using basicimg, against /repo's built archives
R=/repo; src=$1; out=$2; shift 2
clang++-18 -std=c++11 -stdlib=libc++ -fopenmp -O0 -g -w -include /opt/vp/port/include/compat.h -I/opt/vp/port/include -fms-extensions \
 -I$R/basicimg/src/stdafx -I$R/basiclog/include -I$R/basicsys/include -I$R/basicmath/include -I$R/basicimg/include -isystem $R/basic_thrid_libs/lib_opencv/341/include \
 "$@" "$src" -Wl,--start-group $R/_build/libbasicimg.a $R/_build/libbasicmath.a $R/_build/libbasicsys.a $R/_build/libbasiclog.a -Wl,--end-group -lpthread -o "$out"
