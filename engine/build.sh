#!/bin/bash
# builds the symbolic execution engine into /verif/build (idempotent)
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"; B="$D/build/engine"; mkdir -p "$B"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
H=$(cat "$D"/engine/*.cpp "$D"/engine/*.hpp "$D"/engine/build.sh | sha256sum | cut -c1-16)
if [ -x "$B/symx" ] && [ "$(cat "$B/hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
exec 9>"$B/lock"; flock 9
if [ -x "$B/symx" ] && [ "$(cat "$B/hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
FL="-std=c++17 -O2 -fexceptions -w -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr solver decode exec builtins main; do g++ $FL -c "$D/engine/$f.cpp" -o "$B/$f.o" & P="$P $!"; done
for p in $P; do wait $p; done
g++ "$B"/{expr,solver,decode,exec,builtins,main}.o -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -o "$B/symx.tmp"
mv "$B/symx.tmp" "$B/symx"; echo "$H" > "$B/hash"
