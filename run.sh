#!/bin/bash
# Entry point of every check.
#   run.sh setup                    build everything
#   run.sh check <ID> <quick|thorough>
#   run.sh replay <file>            run one recorded case verbosely
# exit 0: held; 1: VIOLATION line printed; 2: the check could not be carried out
set -u
cd /verif || exit 2
export CARGO_TARGET_DIR=/verif/.build/target
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
SEED=${VERIF_SEED:-1}
mkdir -p /verif/.build /verif/evidence

# cargo decides freshness by time stamps; the sources' content decides here
fresh() { # $1: directory tag
  local h s=/verif/.build/stamp-$1
  h=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; cat Cargo.toml; } | sha256sum)
  if [ "$(cat "$s" 2>/dev/null)" != "$h" ]; then
    rm -rf /verif/.build/"$1"/*/.fingerprint/eastl-rs-* /verif/.build/"$1"/*/*/.fingerprint/eastl-rs-* \
      /verif/.build/"$1"/*/build/eastl-rs /verif/.build/"$1"/*/*/build/eastl-rs
  fi
  echo "$h" > "$s.new"
}
build() { # $1: build kind; prints the path of the executable
  local log=/verif/.build/build-$1.log bin rc
  (
    flock 9
    case $1 in
      main)    fresh target;  cargo build --offline --locked --manifest-path harness/Cargo.toml ;;
      rel)     fresh target;  cargo build --offline --locked --release --manifest-path harness/Cargo.toml ;;
      ship|small) export CARGO_TARGET_DIR=/verif/.build/ship; fresh ship
               cargo build --offline --locked --profile $1 --features fused --manifest-path harness/Cargo.toml ;;
      nightly) export CARGO_TARGET_DIR=/verif/.build/nightly; fresh nightly
               cargo +nightly build --offline --locked --features nightly --manifest-path harness/Cargo.toml ;;
      asan)    export CARGO_TARGET_DIR=/verif/.build/asan; fresh asan
               RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --locked --features nightly,asan --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml ;;
    esac > "$log" 2>&1
    rc=$?
    for t in target ship nightly asan; do [ -f /verif/.build/stamp-$t.new ] && mv /verif/.build/stamp-$t.new /verif/.build/stamp-$t; done
    exit $rc
  ) 9> /verif/.build/lock
  rc=$?
  if [ $rc != 0 ]; then
    echo "ERROR: build '$1' failed:" >&2
    grep -E -A8 '^error' "$log" | head -40 >&2
    return 1
  fi
  case $1 in
    main) echo /verif/.build/target/debug/eastl-pbt ;;
    rel) echo /verif/.build/target/release/eastl-pbt ;;
    ship|small) echo /verif/.build/ship/$1/eastl-pbt ;;
    nightly) echo /verif/.build/nightly/debug/eastl-pbt ;;
    asan) echo /verif/.build/asan/x86_64-unknown-linux-gnu/debug/eastl-pbt ;;
  esac
}
export ASAN_OPTIONS=exitcode=86:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1

# build kind:percentage of the property's cases
parts() { # $1: property, $2: tier
  if [ "$1$2" = C25thorough ]; then echo ship:100 small:50 main:40 rel:40 nightly:20; return; fi
  if [ "$2" = thorough ]; then echo main:100 rel:60 nightly:60 asan:25; return; fi
  case $1 in
    C04|C11|C12|C13|C19) echo nightly:100 ;;
    C10) echo asan:100 ;;
    C20) echo rel:100 ;;
    C25) echo ship:100 main:40 ;;
    # whose argument checks must also hold in an optimised build
    C01|C08|C18) echo main:80 rel:60 ;;
    *) echo main:100 ;;
  esac
}

case ${1:-} in
  setup)
    for b in main rel nightly asan ship; do build $b || exit 2; done
    python3 clients/c21.py setup || exit 2
    echo "setup done" ;;
  check)
    id=$2; tier=$3
    if [ "$id" = C21 ]; then
      ( flock 9; exec python3 clients/c21.py check "$tier" "$SEED" ) 9> /verif/.build/lock-clients
      exit
    fi
    rm -f /verif/evidence/$id.json /verif/evidence/part-$id-*.json
    rc=0
    for pp in $(parts "$id" "$tier"); do
      part=${pp%:*} percent=${pp#*:}
      exe=$(build "$part") || { rc=2; break; }
      # the generated histories differ per build
      s=$SEED; case $part in rel) s=$((SEED+1000003));; ship|small) s=$((SEED+4000037));; nightly) s=$((SEED+2000003));; asan) s=$((SEED+3000017));; esac
      "$exe" check --prop "$id" --tier "$tier" --seed "$s" --percent "$percent" --part "$part" --dir /verif/evidence \
             --evidence /verif/evidence/part-$id-$part.json
      rc=$?
      [ $rc = 0 ] || break
    done
    python3 /verif/merge.py "$id" "$tier" "$SEED" || rc=${rc/#0/2}
    rm -f /verif/evidence/part-$id-*.json
    exit $rc ;;
  replay)
    if grep -q '^build clients' "$2"; then python3 clients/c21.py replay "$2"; exit; fi
    part=$(sed -n 's/^build //p' "$2" | head -1)
    exe=$(build "${part:-main}") || exit 2
    "$exe" exec --case "$2" --verbose 1
    rc=$?
    if [ $rc = 0 ]; then echo "the recorded case passes"; exit 0; fi
    echo "VIOLATION property=$(sed -n 's/^property //p' "$2" | head -1) replay=$2"; exit 1 ;;
  *) sed -n 2,6p "$0"; exit 2 ;;
esac
