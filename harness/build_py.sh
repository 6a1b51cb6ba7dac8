#!/bin/bash
# build_py.sh OUTDIR [SAN]   builds the Python package (and, where SAN is 'ref', the direct C++ reference module)
# out of tree from /repo's sources: OUTDIR/factorama/{__init__.py,_factorama.so}, OUTDIR/vpref.so
set -e
out=$1; mode=$2; repo=${VP_REPO:-/repo}; here=$(dirname "$(readlink -f "$0")")
mkdir -p "$out/factorama" "$out/o"
pkg=$repo/python_bindings/python/factorama
py=$(python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
flags="-std=c++17 -O1 -g1 -fPIC -DNDEBUG -w -fvisibility=hidden -I$repo/src -I/usr/include/eigen3 -I$py -I$repo/python_bindings/python"
[ "$mode" = asan ] && flags="$flags -fsanitize=address -fno-omit-frame-pointer"
srcs="$(ls "$repo"/src/factorama/*.cpp) $pkg/_factorama.cpp"
[ "$mode" = ref ] && srcs="$srcs $here/c21ref.cpp"
for f in $srcs; do echo "$f"; done | xargs -P 8 -I{} sh -c 'f="{}"; o=; case "$f" in */_factorama.cpp) o=-O0;; esac; g++ '"$flags"' $o -c "$f" -o "'"$out"'/o/$(basename "$f").o" || exit 255'
lib=$(for f in "$repo"/src/factorama/*.cpp; do echo "$out/o/$(basename "$f").o"; done)
g++ $flags -shared -o "$out/factorama/_factorama.so" $lib "$out/o/_factorama.cpp.o"
[ "$mode" = ref ] && g++ $flags -shared -o "$out/vpref.so" $lib "$out/o/c21ref.cpp.o"
cp "$pkg"/*.py "$out/factorama/"
rm -rf "$out/o"
