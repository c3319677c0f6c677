#!/bin/bash
# Builds the harness and the library from /repo's current working tree.
# usage: build.sh VARIANT   (plain | asan | tsan)      prints the path of the binary
set -eu
VARIANT=${1:-plain}
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VF_REPO:-/repo}
export LANG=C.UTF-8 CCACHE_DISABLE=1
case $VARIANT in
  plain) CC=gcc; CXX=g++; FL="-O1 -g1" ;;
  asan)  CC=gcc; CXX=g++; FL="-O1 -g1 -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fsanitize=address,undefined -fno-sanitize=alignment,shift,function -fno-sanitize-recover=all" ;;
  tsan)  CC=gcc; CXX=g++; FL="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -U_FORTIFY_SOURCE" ;;
  *) echo "unknown variant $VARIANT" >&2; exit 2 ;;
esac
[ "$VARIANT" = asan ] && $CC -fno-sanitize=function -E -x c /dev/null >/dev/null 2>&1 || FL=${FL/,function/}
KEY=$( { cat "$V"/build.sh "$V"/harness/*; for f in "$REPO"/filehash/*.[ch] "$REPO"/src/*.cpp "$REPO"/src/*.h; do echo "$f"; cat "$f"; done; } | sha256sum | cut -c1-20)
OUT=$V/.build/$KEY-$VARIANT
if [ -x "$OUT/vf" ]; then echo "$OUT/vf"; exit 0; fi
TMP=$V/.build/tmp.$$-$VARIANT
mkdir -p "$TMP/o" "$TMP/inc"
# old builds are of no use
find "$V/.build" -mindepth 1 -maxdepth 1 -mmin +600 -exec rm -rf {} + 2>/dev/null || true
cat > "$TMP/inc/filedb_config_internal.h" <<'EOC'
#define PACKAGE "filedb"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_NAME "filedb"
#define PACKAGE_STRING "filedb 1.2"
#define PACKAGE_TARNAME "filedb"
#define PACKAGE_VERSION "1.2"
#define VERSION "1.2"
EOC
INC="-I$TMP/inc -I$REPO/filehash -I$REPO/src -I$V/harness"
DEF="-D_FILE_OFFSET_BITS=64 -D_FILEDB_LITTLE_ENDIAN"
{
  for f in $(grep -LE '^(int[[:space:]]+)?main[[:space:]]*\(' "$REPO"/filehash/*.c); do
    echo "$CC $FL -w $DEF $INC -c $f -o $TMP/o/c_$(basename "$f").o"
  done
  for f in $(grep -LE '^(int[[:space:]]+)?main[[:space:]]*\(' "$REPO"/src/*.cpp); do
    case $(basename "$f") in *Test*) continue ;; esac
    echo "$CXX -std=c++14 $FL -w $DEF $INC -c $f -o $TMP/o/x_$(basename "$f").o"
  done
  for f in "$V"/harness/*.cpp; do
    echo "$CXX -std=c++17 $FL -w $DEF $INC -c $f -o $TMP/o/h_$(basename "$f").o"
  done
} > "$TMP/cmds"
if ! xargs -P 8 -d '\n' -n 1 bash -c < "$TMP/cmds" > "$TMP/log" 2>&1; then
  echo "build failed:" >&2; tail -40 "$TMP/log" >&2; rm -rf "$TMP"; exit 2
fi
WRAP=""
for s in read write lseek ftruncate pread pwrite fsync close open lseek64 ftruncate64 pread64 pwrite64 open64 pthread_mutex_lock pthread_mutex_unlock malloc calloc realloc free strdup posix_memalign aligned_alloc abort __assert_fail; do WRAP="$WRAP -Wl,--wrap=$s"; done
$CXX $FL $WRAP -o "$TMP/vf" "$TMP"/o/*.o -lpthread > "$TMP/log" 2>&1 || { echo "link failed:" >&2; tail -40 "$TMP/log" >&2; rm -rf "$TMP"; exit 2; }
rm -rf "$TMP/o"
rm -rf "$OUT"
mv "$TMP" "$OUT" 2>/dev/null || rm -rf "$TMP"
echo "$OUT/vf"
