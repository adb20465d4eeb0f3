#!/bin/sh
# developer build of the analyser
cd "$(dirname "$0")" && mkdir -p ../build && make -s -j8 -f Makefile OUT=../build
