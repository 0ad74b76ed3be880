#!/bin/bash
# Builds the allocator from ./tcmalloc as an ordinary library (entry points TCMallocInternal*) with demo.cc and runs it.
# Everything written goes into a scratch directory that is removed again.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export repo here W
FLAGS="-DTCMALLOC_INTERNAL_8K_PAGES $(cat "$here/flags" 2>/dev/null)"
CXX="g++ -std=c++17 -O1 -g0 -w $FLAGS -I $here/shim -I $repo"
export CXX
srcs() {
  ls $repo/tcmalloc/*.cc $repo/tcmalloc/internal/*.cc | grep -Ev '(test|fuzz|bench|mock|aarch|unsupported|want_|profile_builder|profile_marshaler|fake|_riscv|_ppc)[^/]*$'
  if [ -f $repo/tcmalloc/internal/percpu_rseq_asm.S ]; then echo $repo/tcmalloc/internal/percpu_rseq_asm.S
  else ls $repo/tcmalloc/internal/percpu_rseq_x86_64.S 2>/dev/null; fi
}
one() {
  s=$1; o=$W/$(echo "$s" | tr / _).o; x=
  case $s in */tcmalloc/tcmalloc.cc) x="-DTCMALLOC_LIBC_OVERRIDE_H_ -include $here/no_override.h";; esac
  $CXX $x -c "$s" -o "$o" || { echo "cannot compile $s"; exit 255; }
}
export -f one
if [ -f "$here/header_only" ]; then list=; else list=$(srcs); fi
printf '%s\n' $list "$here/demo.cc" | xargs -P 8 -I{} bash -c 'one {}' || exit 3
g++ -o $W/demo $W/*.o -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread || exit 3
cd $W && env $(cat "$here/env" 2>/dev/null) timeout 120 ./demo
rc=$?
echo "demo exit $rc"
exit $rc
