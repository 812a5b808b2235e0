#!/bin/bash
# Builds the simulator against /repo's working tree. Prints the path of the binary.
# Output goes to /verif/build/<hash of sources>/ (git-ignored); an unchanged tree is not rebuilt.
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${SIMCP_REPO:-/repo}
S=$V/sim
H=$( (cd $R && find src include test -maxdepth 1 -type f | LC_ALL=C sort | xargs sha256sum; cd $S && find . -type f | LC_ALL=C sort | xargs sha256sum; sha256sum $V/build.sh; echo "$R") | sha256sum | cut -c1-16)
B=$V/build/$H
mkdir -p $V/build
exec 9>$V/build/.lock
flock 9
if [ -x $B/simcp ]; then echo $B/simcp; exit 0; fi
# keep the build directory small: drop older builds (not ones touched in the last 2 hours)
find $V/build -mindepth 1 -maxdepth 1 -type d -mmin +120 -exec rm -rf {} + 2>/dev/null || true
T=$B.tmp.$$; rm -rf $T; mkdir -p $T
COMMON="-std=c++11 -O2 -g1 -w -include cassert -include cstdint -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -fno-builtin-malloc -I$R/include -I$S/ftkstub -I$S"
INSTR="-fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fsanitize=bounds -fsanitize-recover=bounds"
ZFN="compress decompress compressCCtx decompressDCtx compress2 CCtx_setParameter CCtx_setPledgedSrcSize CCtx_reset DCtx_setParameter DCtx_reset compressStream2 compressStream flushStream endStream initCStream initDStream decompressStream freeCCtx freeDCtx freeCStream freeDStream"
REDEF="--redefine-sym memcpy=simr_memcpy --redefine-sym memmove=simr_memmove --redefine-sym memset=simr_memset --redefine-sym memcmp=simr_memcmp --redefine-sym exit=simr_exit --redefine-sym fopen=simr_fopen --redefine-sym fclose=simr_fclose"
for z in $ZFN; do REDEF="$REDEF --redefine-sym ZSTD_$z=simr_ZSTD_$z"; done
cc_sut(){ # source object extra-redefines
  g++ $COMMON $INSTR -c $1 -o $2 2>$2.log && objcopy $REDEF $3 $2; }
pids=()
for f in $R/src/*.cpp; do b=$(basename $f .cpp)
  [ $b = sz_compress_cp_preserve_3d ] && continue
  cc_sut $f $T/sut_$b.o & pids+=($!); done
cc_sut $S/glue.cpp $T/sut_glue.o & pids+=($!)
# the same sources without instrumentation, as a shared object: used by guided searches, whose findings are confirmed on the instrumented code
cc_plain(){ g++ $COMMON -fPIC -fno-gnu-unique -c $1 -o $2 2>$2.log && objcopy --redefine-sym exit=simr_exit --redefine-sym memset=simr_pmemset $2; }
for f in $R/src/*.cpp $S/glue.cpp $S/plain.cpp; do b=$(basename $f .cpp)
  [ $b = sz_compress_cp_preserve_3d ] && continue
  cc_plain $f $T/pl_$b.o & pids+=($!); done
( cc_plain $R/src/sz_compress_cp_preserve_3d.cpp $T/opl_3d.o && cc_plain $S/glue3d.cpp $T/opl_glue3d.o ) & p4=$!
prog(){ cc_sut $R/test/$1.cpp $T/prog_$2.o "--redefine-sym main=prog_$2" ; }
prog sz_compress_test sz_test & pids+=($!)
prog sz_compress_2d_with_eb 2d_with_eb & pids+=($!)
prog sz_compress_cp_preserve_2d_test cp2d & pids+=($!)
prog sz_compress_test_with_eb test_with_eb & pids+=($!)
for f in core world main; do g++ -std=c++17 -O2 -g1 -w -Wno-misleading-indentation -Wno-stringop-truncation -Wno-format-truncation -I$S -c $S/$f.cpp -o $T/h_$f.o 2>$T/h_$f.o.log & pids+=($!); done
# the 3D vector-field part needs FTK; it is compiled against a stand-in and left out if that fails
( cc_sut $R/src/sz_compress_cp_preserve_3d.cpp $T/opt_3d.o && cc_sut $S/glue3d.cpp $T/opt_glue3d.o && prog sz_compress_cp_preserve_3d_test cp3d && prog sz_compress_cp_preserve_3d_unstructured_test cp3du && mv $T/prog_cp3d.o $T/opt_cp3d.o && mv $T/prog_cp3du.o $T/opt_cp3du.o ) & p3=$!
ok=1; for p in "${pids[@]}"; do wait $p || ok=0; done
OPT=""; if wait $p3; then OPT="$T/opt_3d.o $T/opt_glue3d.o $T/opt_cp3d.o $T/opt_cp3du.o"; else rm -f $T/prog_cp3d*.o; fi
PL3=""; if wait $p4 && [ -n "$OPT" ]; then PL3="$T/opl_3d.o $T/opl_glue3d.o"; fi
if [ $ok = 0 ]; then echo "build of the simulator failed" >&2; cat $T/*.log >&2; rm -rf $T; exit 3; fi
g++ -rdynamic -g1 -o $T/simcp $T/h_*.o $T/sut_*.o $T/prog_*.o $OPT -lzstd -lpthread -ldl 2>$T/link.log || { echo "link of the simulator failed" >&2; cat $T/link.log >&2; rm -rf $T; exit 3; }
g++ -shared -Wl,-Bsymbolic -o $T/plain.so $T/pl_*.o $PL3 -lzstd 2>$T/link2.log || { echo "link of the plain library failed" >&2; cat $T/link2.log >&2; rm -rf $T; exit 3; }
rm -f $T/*.o
rm -rf $B; mv $T $B
echo $B/simcp
