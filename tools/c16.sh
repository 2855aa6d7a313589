# Sourced by check.sh for C16: the same workloads in several builds.
# stable build with overflow checks and internal assertions, AddressSanitizer, MemorySanitizer
# (with an instrumented standard library) and the Miri interpreter.
TRIPLE=x86_64-unknown-linux-gnu
NIGHTLY=nightly-$TRIPLE
export ASAN_OPTIONS=detect_leaks=0:exitcode=99 MSAN_OPTIONS=exitcode=99
export MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-disable-isolation"

c16_build() { # asan|msan|miri
  case "$1" in
    asan) RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$VERIF_DIR/target/asan" \
        build asan cargo build --offline --locked --release --target $TRIPLE --manifest-path harness/Cargo.toml ;;
    msan) RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="-Zsanitizer=memory" CARGO_TARGET_DIR="$VERIF_DIR/target/msan" \
        build msan cargo build --offline --locked --release -Zbuild-std --target $TRIPLE --manifest-path harness/Cargo.toml ;;
    miri) miri 0 0 >"$VERIF_DIR/target/miri.log" 2>&1 ;;
  esac
}

miri() { # first case, seconds
  RUSTUP_TOOLCHAIN=$NIGHTLY CARGO_TARGET_DIR="$VERIF_DIR/target/miri" timeout -k 10 $((${2} + 600)) \
    cargo miri run --offline --locked --manifest-path harness/Cargo.toml -- inline C16 "$MODE" "$SEED" "$1" "$2"
}

c16_vh() { # build
  case "$1" in
    asan|msan) echo "$VERIF_DIR/target/$1/$TRIPLE/release/vh" ;;
    *) echo "$VERIF_DIR/target/release/vh" ;;
  esac
}

c16_replay() { # tier seed case
  case "${VH_BUILD:-}" in
    -asan|-msan) c16_build "${VH_BUILD#-}" || exit 2; export VH_NOLIMIT=1 ;;
    -miri) MODE=$1 SEED=$2 VH_CASES=1 miri "$3" 600; exit $? ;;
  esac
  VH=$(c16_vh "${VH_BUILD#-}")
  "$VH" replay C16 "$1" "$2" "$3"
  exit $?
}

c16() {
  local parts="$VERIF_DIR/target/c16-evidence" wall miri_s rc=0 b off cases
  if [ "$MODE" = thorough ]; then wall=900 miri_s=1200 cases=; else wall=100 miri_s=90 cases=30000; fi
  rm -rf "$VERIF_DIR/target/c16-evidence"
  mkdir -p "$parts"
  VH_EVIDENCE_DIR="$parts/stable" VH_WALL=$wall "$VH" check C16 "$MODE" "$SEED" || rc=$?
  for b in asan msan; do
    [ $rc -ne 0 ] && break
    if [ $b = asan ]; then off=1000; else off=2000; fi
    if c16_build $b; then
      echo "build $b:"
      VH_CASES=${VH_CASES:-$cases} VH_BUILD=-$b VH_NOLIMIT=1 VH_CASE_CPU_MS=400000 VH_EVIDENCE_DIR="$parts/$b" VH_WALL=$wall \
        "$(c16_vh $b)" check C16 "$MODE" $((SEED + off)) || rc=$?
    else
      echo "INCONCLUSIVE property=C16: the $b build failed"
    fi
  done
  if [ $rc -eq 0 ]; then
    mkdir -p "$parts/miri"
    if c16_build miri; then
      local pids=() p
      for p in 0 1 2 3 4 5 6 7; do
        miri $((p * 100000)) $miri_s >"$parts/miri/$p.out" 2>"$parts/miri/$p.err" &
        pids+=($!)
      done
      for p in 0 1 2 3 4 5 6 7; do
        wait "${pids[$p]}" && continue
        local case
        case=$(grep -o '^case [0-9]*' "$parts/miri/$p.err" | tail -1 | cut -d' ' -f2)
        if grep -q "Undefined Behavior" "$parts/miri/$p.err" || grep -q "^FAILED" "$parts/miri/$p.out"; then
          local file="$VERIF_DIR/replays/C16-miri-$MODE-$SEED-$case.txt"
          mkdir -p "$VERIF_DIR/replays"
          { echo "replay: VH_BUILD=-miri ./check.sh C16 replay $MODE $SEED $case"
            cat "$parts/miri/$p.out"; grep -A60 '^error' "$parts/miri/$p.err"; } >"$file"
          grep -m1 'Undefined Behavior' "$parts/miri/$p.err"
          echo "VIOLATION property=C16 replay=$file"
          rc=1
        else
          echo "INCONCLUSIVE property=C16: the interpreter stopped in case $case: $(grep -m1 '^error' "$parts/miri/$p.err")"
        fi
      done
      cat "$parts"/miri/*.out | head -8
    else
      echo "INCONCLUSIVE property=C16: the interpreter could not be started"
    fi
  fi
  python3 tools/merge_c16.py "$parts" "$VERIF_DIR/evidence/C16.json" "$rc"
  return $rc
}
