#!/bin/bash
. /verif/env.sh
mkdir -p /verif/build
g++ -O2 -std=c++17 -w -I$Z/include /verif/engine/exec.cpp -o /verif/build/engine -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lpthread
