#!/bin/bash
# builds the I/O shim; nothing else is needed before a check
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/evidence"
if [ ! -f "$here/build/simio.so" ] || [ "$here/sim/simio.c" -nt "$here/build/simio.so" ]; then
  tmp="$here/build/simio.$$.so"
  gcc -O2 -Wall -Wno-nonnull-compare -shared -fPIC -o "$tmp" "$here/sim/simio.c" -ldl -lpthread
  mv -f "$tmp" "$here/build/simio.so"
fi
