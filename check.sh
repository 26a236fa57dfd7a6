#!/bin/bash
# usage: check.sh PROPERTY quick|thorough      decide one property
#        check.sh replay FILE                  execute a replay file
#        check.sh selftest [args]              determinism of the simulator
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
started=$(date +%s)
prop=$1 tier=${2:-quick}
seed=${VERIF_SEED:-1}
case $prop in
replay)
  ./build.sh plain race >&2 || exit 2
  exec build/bin/simd-plain replay -root "$here" "$2";;
selftest)
  shift
  ./build.sh plain race >&2 || exit 2
  exec build/bin/simd-plain selftest -root "$here" "$@";;
esac
kinds=plain race=0
if [ "$tier" = thorough ]; then
  secs=${VERIF_SECS:-540}
  case $prop in C05) kinds="plain race" race=200 secs=${VERIF_SECS:-340};; C08|C18|C19) kinds="plain race" race=120 secs=${VERIF_SECS:-420};; esac
else
  secs=${VERIF_SECS:-45}
  case $prop in C05) kinds="plain race" race=25 secs=${VERIF_SECS:-30};; esac
fi
./build.sh $kinds >&2 || { echo "check.sh: build failed" >&2; exit 2; }
build/bin/simd-plain check -root "$here" -prop "$prop" -tier "$tier" -seed "$seed" -secs "$secs" -racesecs "$race" -started "$started"
