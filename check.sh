#!/bin/bash
# usage: check.sh Cxx [quick|thorough]
# exit 0: held on everything observed; exit 1 + "VIOLATION property=.. replay=..": broken; exit 2: no verdict
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
out=$here/evidence
mkdir -p "$out" "$here/.build"
export CARGO_NET_OFFLINE=true
case $prop in C28|C29) # the metadata generator is a Java tool
  exec python3 "$here/javagen/genmon.py" "$prop" --tier "$tier" --seed "$seed" --out "$out" --build "$here/.build/java";;
esac
build() { # build LOG TARGET-DIR cargo-args...
  local log=$1 dir=$2; shift 2
  ( cd "$here/harness" && CARGO_TARGET_DIR=$dir cargo "$@" ) >"$log" 2>&1
}
common=(--tier "$tier" --seed "$seed" --repo /repo --out "$out" --known "$here/known_findings.txt")
dir=target       # C31-C35 watch the library through its guarded hooks, each in a build of its own
case $prop in
C31) dir=plans; export RUSTFLAGS="--cfg rlibphonenumber_verif";;
C32|C33|C34|C35) dir=ops; export RUSTFLAGS="--cfg rlibphonenumber_verif --cfg rlibphonenumber_verif_ops";;
esac
if ! build "$here/.build/build.log" "$here/.build/$dir" build --release --offline; then
  tail -40 "$here/.build/build.log" >&2; echo "check: the library or the harness does not build" >&2; exit 2
fi
mon=$here/.build/$dir/release/monitor
notes=()
san=0            # 0 clean, 1 violation, 2 nothing learnt
replay=
sanitizer() { # sanitizer NAME RUSTFLAGS  -> builds the harness, std included, under a sanitizer
  RUSTFLAGS="$2 --cfg harness_sanitize" build "$here/.build/build-$1.log" "$here/.build/$1" +nightly build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu
}
trip=x86_64-unknown-linux-gnu/release/monitor
case $prop in
C25)
  if sanitizer tsan "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"; then
    runs=3; [ "$tier" = thorough ] && runs=40
    calls=0
    mkdir -p "$out/replay"
    for i in $(seq 1 $runs); do
      s=$((seed * 1000 + i)); log=$out/replay/C25-tsan-$s.log
      TSAN_OPTIONS="halt_on_error=0 exitcode=66 report_thread_leaks=0" timeout -s ABRT 300 "$here/.build/tsan/$trip" --race $s >"$log" 2>&1
      rc=$?
      if grep -q "WARNING: ThreadSanitizer" "$log"; then san=1; replay=$log; grep -A4 "WARNING: ThreadSanitizer" "$log" | head -12; break
      elif [ $rc -eq 1 ] || [ $rc -ge 128 ]; then san=1; replay=$log; tail -5 "$log"; break
      elif [ $rc -ne 0 ]; then san=2; tail -5 "$log" >&2; break; fi
      n=$(sed -n 's/.*race rounds=.* calls=\([0-9]*\).*/\1/p' "$log" | tail -1); calls=$((calls + ${n:-0}))
      rm -f "$log"
    done
    [ $san -eq 0 ] && notes+=(--note "thread_sanitizer=$runs runs (std instrumented too), $calls concurrent calls, 0 reports")
    [ $san -eq 1 ] && notes+=(--note "thread_sanitizer=reported, see $replay")
  else
    san=2; tail -5 "$here/.build/build-tsan.log" >&2
  fi
  [ $san -eq 2 ] && notes+=(--note "thread_sanitizer=not available in this run; only the behavioural oracle decided");;
C01)
  if [ "$tier" = thorough ]; then
    if sanitizer asan "-Zsanitizer=address"; then
      mkdir -p "$out/asan"
      MONITOR_SLOW=1 ASAN_OPTIONS="detect_leaks=0 allocator_may_return_null=1" timeout -s KILL 1800 "$here/.build/asan/$trip" C01 --tier quick --seed $((seed + 7)) --scale 0.2 --repo /repo --out "$out/asan" --known "$here/known_findings.txt" >"$out/asan/C01.log" 2>&1
      rc=$?
      if grep -q "ERROR: AddressSanitizer" "$out/asan/C01.log" || [ $rc -eq 1 ]; then san=1; replay=$out/asan/C01.log; grep -A6 "ERROR: AddressSanitizer\|VIOLATION" "$replay" | head -12
      else notes+=(--note "address_sanitizer=rc $rc, $(grep -o '[0-9]* library calls observed' "$out/asan/C01.log" | tail -1)"); fi
    else notes+=(--note "address_sanitizer=build not available"); fi
  fi;;
esac
"$mon" "$prop" "${common[@]}" ${notes[@]+"${notes[@]}"}
rc=$?
if [ $rc -eq 0 ] && [ $san -eq 1 ]; then
  echo "VIOLATION property=$prop replay=$replay"; exit 1
fi
exit $rc
