#!/bin/bash
# Builds demo.cpp (beside this script) against the sources and objects of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC=$(find "$PWD/src" -type d -printf '-I%p ')
OBJ=$(find _build/CMakeFiles/vp_objs.dir -name '*.o')
g++ -std=gnu++14 -w -g -I/opt/vp/compat $INC "$D/demo.cpp" $OBJ -o "$T/demo" \
    -Wl,-Bstatic -lst -lhttp_parser -Wl,-Bdynamic -lrtmp -lpthread -lsrt -lssl -lcrypto -lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample -lswscale || exit 3
cd "$T" && timeout 120 ./demo
