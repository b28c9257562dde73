#!/bin/bash
# Builds the system call interposer; everything else is interpreted.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ -f mc/shim.c ]; then gcc -O1 -Wall -Wno-nonnull -shared -fPIC -o build/shim.so mc/shim.c -ldl -lpthread; fi
/opt/venv/bin/python -c 'import yaml, structlog, aiohttp, lzo, mmh3'
