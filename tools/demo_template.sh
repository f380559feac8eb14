#!/bin/bash
# Builds demo.cc against /repo's current sources and runs it. Exit 0: the property held.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
LIBS=$(grep -m1 'LINK_LIBRARIES = libcartographer.a' /repo/_build/build.ninja | sed 's/.*libcartographer.a//')
g++ -std=gnu++17 -O1 -w -pthread -DBOOST_IOSTREAMS_DYN_LINK -DGFLAGS_IS_A_DLL=0 -DGLOG_CUSTOM_PREFIX_SUPPORT -DUSE_PROMETHEUS=1 \
  -I/repo/_build -I/repo -isystem /usr/include/eigen3 -isystem /usr/include/lua5.2 \
  "$D/demo.cc" /repo/_build/libcartographer.a $LIBS -o "$T/demo" || exit 99
cd "$T" && timeout 60 ./demo
