#!/bin/bash
# build.sh REPO OUT.wasm [FLAGS...]: libresdet with the bundled transform for wasm32
set -e
R=$1 OUT=$2; shift 2; H=$(dirname "$0"); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
i=0
for f in "$R"/lib/*.c "$R"/lib/image/{pgm,pfm,y4m}.c "$R"/lib/transform/kiss_fft.c "$R"/lib/kissfft/kiss_fft{,nd,ndr,r}.c "$H"/libc.c; do
	i=$((i+1))
	clang --target=wasm32 -O1 -fno-builtin -ffreestanding -nostdlibinc -isystem "$H/inc" -std=gnu99 -w -Wno-implicit-function-declaration -I"$R/include" -I"$R/lib" -I"$R/lib/kissfft" -DRESDET_EXPORT '-DVERSION_SUFFIX="+verif"' -DUSE_BUILTIN_SIGNBIT "$@" -c -o "$T/$i.o" "$f" &
	P="$P $!"
done
for p in $P; do wait $p; done
E=$(sed 's/^_//' "$R/bindings/emscripten/exported_functions.txt" | grep -vE '^(malloc|free)$' | sed 's/^/--export=/')
wasm-ld --no-entry --allow-undefined --gc-sections --export-table --export=__stack_pointer --export=__heap_base $E --initial-memory=2097152 -z stack-size=262144 -o "$OUT" "$T"/*.o
