#!/bin/bash
# build.sh OUTDIR HARNESS.cpp [SAN]   builds /repo's library sources and one harness, out of tree
set -e
out=$1; src=$2; san=$3; repo=${VP_REPO:-/repo}; here=$(dirname "$(readlink -f "$0")")
mkdir -p "$out"
flags="-std=c++17 -O1 -g1 -DNDEBUG -w -include $here/eigen_trap.hpp -I$repo/src -I/usr/include/eigen3 -I$here"
[ -n "$san" ] && flags="$flags -fsanitize=address -fno-omit-frame-pointer"
[ "$san" = ub ] && flags="$flags -fsanitize=undefined -fno-sanitize-recover=undefined"
rt=
if [ "$san" = mt ]; then # every memory access reported to harness/mtrt.cpp
  flags="-std=c++17 -O1 -g1 -DNDEBUG -w -include $here/eigen_trap.hpp -I$repo/src -I/usr/include/eigen3 -I$here"
  g++ $flags -c "$here/mtrt.cpp" -o "$out/mtrt.rt"
  rt="$out/mtrt.rt"; for w in malloc free calloc realloc posix_memalign aligned_alloc memcpy memmove memset pthread_mutex_lock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort; do rt="$rt -Wl,--wrap=$w"; done
  flags="$flags -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-builtin-memcpy"
fi
{ for f in "$repo"/src/factorama/*.cpp; do echo "$f"; done; echo "$src"; } | xargs -P 8 -I{} sh -c 'f="{}"; g++ '"$flags"' -c "$f" -o "'"$out"'/$(basename "$f").o" || exit 255'
[ -n "$rt" ] && flags="-std=c++17"
g++ $flags -o "$out/harness" "$out"/*.o $rt -ldl -lpthread
