#!/bin/bash
# build.sh OUTDIR: builds the library and utilities from /repo's working tree with ASan, and the harness
set -eu
out=$1
repo=${MC_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
CF="-fsanitize=address -fno-omit-frame-pointer -O1 -g -ftrivial-auto-var-init=pattern"
{
cmake -S "$repo" -B "$out/build" -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=/usr/bin/gcc \
  -DCMAKE_DISABLE_FIND_PACKAGE_SWIG=ON -DCMAKE_C_FLAGS="$CF" -DCMAKE_SHARED_LINKER_FLAGS="-fsanitize=address" \
  -DCMAKE_EXE_LINKER_FLAGS="-fsanitize=address" -DBUILD_TESTING=OFF
ninja -C "$out/build"
} > "$out/build.log" 2>&1 || { tail -40 "$out/build.log" >&2; exit 3; }
libdir=$(dirname "$(find "$out/build" -name 'liboifits.so*' | head -1)")
PC="$(pkg-config --cflags --libs glib-2.0 cfitsio)"
objs=()
pids=()
for f in "$here"/*.c; do
  o="$out/$(basename "${f%.c}").o"
  objs+=("$o")
  gcc $CF -std=gnu11 -Wall -Wno-unused-result -Wno-format-truncation -I"$repo/src/oifitslib" $(pkg-config --cflags glib-2.0 cfitsio) -c "$f" -o "$o" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
gcc $CF -o "$out/mc" "${objs[@]}" -L"$libdir" -Wl,-rpath,"$libdir" -Wl,--as-needed -loifits -loitable $PC -lm -ldl
find "$out/build" -maxdepth 4 -name 'oifits-*' -type f -perm -u+x | head -1 | xargs -r dirname > "$out/bindir"
