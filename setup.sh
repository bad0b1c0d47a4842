#!/bin/sh
# Offline; every check can also build what it needs on its own.
cd "$(dirname "$0")" || exit 1
command -v java >/dev/null && command -v g++ >/dev/null || exit 1
mkdir -p build work evidence
python3 -c "
import sys; sys.path[:0]=['tools','checks']
import vlib; vlib.config_dir('serial'); vlib.config_dir('threads'); vlib.build('geom',['geom.cpp'])"
