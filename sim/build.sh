#!/bin/bash
# build.sh REPO OUTDIR : compiles REPO/src instrumented, plus the simulator, into OUTDIR/simbin
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj"
CC=${CC:-gcc}
CF="-std=gnu17 -O1 -g1 -fno-strict-aliasing -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -fno-pie -D_GNU_SOURCE -pthread -DXXH_STATIC_LINKING_ONLY -DSPLINTERDB_PLATFORM_DIR=platform_linux -I $REPO/include -I $REPO/src -I $REPO/src/platform_linux -Wno-all"
INS="-DGIT_VERSION=\\\"sim\\\" -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -include $HERE/sim_pre.h $SIM_EXTRA"
HF="-O2 -g1 -fno-omit-frame-pointer -Wall -Wno-misleading-indentation -Wno-unused-function -fno-pie -U_FORTIFY_SOURCE -D_GNU_SOURCE"
export CC CF INS HF OUT HERE REPO
one() { src=$1; o="$OUT/obj/lib_$(echo "${src#$REPO/src/}" | tr '/' '_').o"
  eval $CC $CF $INS -c "$src" -o "$o" && objcopy --redefine-syms="$HERE/redefine.txt" "$o"; }
har() { src=$1; b=$(basename "$src" .c); o="$OUT/obj/h_$b.o"
  case $b in
   simrt|disk|main) eval $CC $HF -c "$src" -o "$o" ;;
   *) eval $CC $CF -O2 -Wall -Wno-misleading-indentation -Wno-unused-function -include $HERE/sim_pre.h -c "$src" -o "$o" && objcopy --redefine-syms="$HERE/redefine.txt" "$o" ;;
  esac; }
# a harness that no longer compiles against the tree is left out; the others still decide their properties
opt() { rm -f "$OUT/skipped_$(basename "$1" .c)"; har "$1" 2> "$OUT/obj/$(basename "$1" .c).log" || { rm -f "$OUT/obj/h_$(basename "$1" .c).o"; touch "$OUT/skipped_$(basename "$1" .c)"; echo "harness $(basename "$1") does not compile against this tree; left out:" >&2; head -5 "$OUT/obj/$(basename "$1" .c).log" >&2; }; }
export -f one har opt
rm -f "$OUT"/obj/*.o
{ find "$REPO/src" -name '*.c' | sort | sed 's/^/one /'; find "$HERE" -maxdepth 1 -name '*.c' ! -name 'h_*.c' | sort | sed 's/^/har /'; find "$HERE" -maxdepth 1 -name 'h_*.c' | sort | sed 's/^/opt /'; } | xargs -P "${JOBS:-8}" -d '\n' -I{} bash -c '{} || exit 255'
$CC -no-pie -g -o "$OUT/simbin.tmp" "$OUT"/obj/*.o "$HERE/aliases.ld" -lxxhash -lm -lpthread -ldl $SIM_LD
mv "$OUT/simbin.tmp" "$OUT/simbin"
