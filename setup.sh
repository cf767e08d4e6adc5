#!/bin/bash
# builds the simulated-disk shim (gcc only, offline)
cd "$(dirname "$0")" && mkdir -p build && gcc -O2 -fPIC -shared -w -o build/libsimio.so sim/simio.c -ldl -lpthread
