#!/bin/bash
# Usage: run.sh <property id> [--replay <file>]
# Builds the harness of the property from /repo's current tree and runs its check.
# Exit 0: held; 1: violation (a VIOLATION line names the replay file); other: the check itself failed.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
cd "$ROOT" || exit 3
ID="${1:?property id}"
TOOLCHAIN=nightly-2026-05-18
TARGET=x86_64-unknown-linux-gnu

case "$ID" in
  C0[1-9]|C10)        CRATE=containers; BIN=ordered;   SAN=1 ;;
  C1[1-6])            CRATE=containers; BIN=unordered; SAN=1 ;;
  C17)                CRATE=containers; BIN=laws;      SAN=0 ;;
  C18|C19)            CRATE=attr;       BIN=attr;      SAN=0 ;;
  C20|C21)            CRATE=mounts;     BIN=gc;        SAN=0 ;;
  C22)                CRATE=mounts;     BIN=poll;      SAN=0 ;;
  C23)                CRATE=mounts;     BIN=sort;      SAN=1 ;;
  C27|C28)            CRATE=mounts;     BIN=iobuf;     SAN=1 ;;
  C29)                CRATE=mounts;     BIN=fnmatch;   SAN=0 ;;
  C30)                CRATE=mounts;     BIN=gpalloc;   SAN=0 ;;
  C31)                CRATE=mounts;     BIN=source;    SAN=0 ;;
  C32)                CRATE=mounts;     BIN=ivars;     SAN=1 ;;
  C24|C25|C33|C34)    CRATE=mounts;     BIN=rhash;     SAN=1 ;;
  C26|C35|C36|C37)    CRATE=mounts;     BIN=rstring;   SAN=1 ;;
  C38)                CRATE=slices;     BIN=format;    SAN=0 ;;
  C39)                CRATE=slices;     BIN=numbers;   SAN=0 ;;
  C40)                CRATE=slices;     BIN=charsets;  SAN=0 ;;
  C41)                CRATE=slices;     BIN=trim;      SAN=1 ;;
  C42)                CRATE=slices;     BIN=transform; SAN=0 ;;
  C43)                CRATE=slices;     BIN=find;      SAN=1 ;;
  C44)                CRATE=slices;     BIN=cut;       SAN=1 ;;
  C45)                CRATE=slices;     BIN=integer;   SAN=0 ;;
  C46)                CRATE=slices;     BIN=reals;     SAN=0 ;;
  C47)                CRATE=slices;     BIN=rational;  SAN=0 ;;
  C48)                CRATE=slices;     BIN=words;     SAN=0 ;;
  C49|C5[0-2])        CRATE=slices;     BIN=array;     SAN=1 ;;
  C53)                CRATE=slices;     BIN=random;    SAN=1 ;;
  C54)                CRATE=slices;     BIN=json;      SAN=0 ;;
  C55|C56|C58)        CRATE=slices;     BIN=hashes;    SAN=1 ;;
  C59)                CRATE=slices;     BIN=buffers;   SAN=1 ;;
  C60)                CRATE=slices;     BIN=marshal;   SAN=0 ;;
  C57)                CRATE=slices;     BIN=paths;     SAN=0 ;;
  *) echo "unknown property $ID" >&2; exit 3 ;;
esac

mkdir -p "$ROOT/target/scratch"
LOG="$ROOT/target/scratch/build-$ID-$$.log"
FLAGS="--cap-lints=warn"
[ "$SAN" = 1 ] && FLAGS="$FLAGS -Zsanitizer=address"
if ! RUSTFLAGS="$FLAGS" CARGO_TERM_COLOR=never cargo "+$TOOLCHAIN" build --release --offline --locked \
     --manifest-path "$ROOT/harness/$CRATE/Cargo.toml" --bin "$BIN" \
     --target "$TARGET" --target-dir "$ROOT/target/build-$SAN" >"$LOG" 2>&1; then
  grep -E "^(error|warning: unused)" -A 12 "$LOG" | head -60 >&2
  echo "the harness of $ID does not build against the current tree" >&2
  exit 3
fi
rm -f "$LOG"
export ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0"
[ "${2-}" = --replay ] && shift
exec "$ROOT/target/build-$SAN/$TARGET/release/$BIN" "$@"
