#!/bin/bash
# Build the native simulator from /repo's current working tree.
# Output: /verif/build/native-<hash>/trvsim ; prints that path on stdout.
set -eu
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${TRV_REPO:-/repo}"
SRC="$REPO/src/triumvirate"
B="$VERIF/build"
mkdir -p "$B"
H=$( (cd "$SRC" && find src include main -type f | LC_ALL=C sort | xargs sha256sum; cd "$VERIF" && sha256sum sim/* bin/build_native.sh) | sha256sum | cut -c1-20)
OUT="$B/native-$H"
exec 9>"$B/.lock"; flock 9
if [ -x "$OUT/trvsim" ]; then touch "$OUT"; echo "$OUT/trvsim"; exit 0; fi
# keep at most the newest two older builds
ls -1dt "$B"/native-* 2>/dev/null | tail -n +3 | while read -r d; do case "$d" in "$B"/native-*) rm -rf "$d";; esac; done
TMP="$OUT.tmp.$$"; mkdir -p "$TMP"
CXX="${CXX:-g++}"
DEFS='-DTRV_USE_OMP -DTRV_USE_FFTWOMP -D__TRV_VERSION__="sim" -D__TZOFFSET__="+0000"'
DEFS=(-DTRV_USE_OMP -DTRV_USE_FFTWOMP '-D__TRV_VERSION__="sim"' '-D__TZOFFSET__="+0000"')
COMMON=(-std=c++17 -g1 -w -fno-pie "-I$SRC/include" "${DEFS[@]}")
INS=(-O1 -fopenmp -fsanitize=thread --param=tsan-instrument-func-entry-exit=0)
JOBS=()
run() { # name cmd...
  local n="$1"; shift
  ( "$@" >"$TMP/$n.log" 2>&1 || { echo "compile of $n failed" >>"$TMP/failed"; cat "$TMP/$n.log" >>"$TMP/failed"; } ) &
}
for f in "$SRC"/src/*.cpp; do
  n=$(basename "$f" .cpp)
  run "$n" $CXX "${COMMON[@]}" "${INS[@]}" -c "$f" -o "$TMP/trv_$n.o"
done
run main $CXX "${COMMON[@]}" "${INS[@]}" -Dmain=trv_main -c "$SRC/main/triumvirate.cpp" -o "$TMP/trv_main.o"
for f in "$VERIF"/sim/*.cpp; do
  n=$(basename "$f" .cpp)
  run "sim_$n" $CXX "${COMMON[@]}" -O2 -fno-strict-aliasing -c "$f" -o "$TMP/sim_$n.o"
done
wait
if [ -s "$TMP/failed" ]; then cat "$TMP/failed" >&2; rm -rf "$TMP"; exit 3; fi
$CXX -no-pie -rdynamic "$TMP"/*.o -o "$TMP/trvsim" -lgsl -lgslcblas -lfftw3_omp -lfftw3 -lm -ldl -lpthread >&2 || { rm -rf "$TMP"; exit 3; }
rm -f "$TMP"/*.o "$TMP"/*.log
mv "$TMP" "$OUT"
echo "$OUT/trvsim"
