#!/bin/bash
# replay.sh FILE: run the recorded case against /repo's current tree
set -e
F="$(readlink -f "$1")"; V="$(cd "$(dirname "$0")/.." && pwd)"; B="$V/build"
C=$(sed -n 's,^// configuration \(.\);.*,\1,p' "$F"); P=$(sed -n 's,^// property \(.*\),\1,p' "$F")
[ -z "$C" ] && { echo "no failing input recorded; failed obligations:"; cat "$F"; exit 1; }
case $C in N|L|S)
  case $C in N) TC=nightly; RF="--cfg procmacro2_semver_exempt"; FE=loc,exempt;; L) TC=stable; RF=""; FE=loc;; S) TC=stable; RF=""; FE="";; esac
  (cd "$V/search/inmac" && RUSTFLAGS="$RF" cargo +$TC build --offline -q --features "$FE" --target-dir "$B/inmac-$C")
  mkdir -p "$B/replay"; rm -f "$B/replay/outcome"
  R=0; INMAC_OUT="$B/replay/outcome" INMAC_CASE="$(sed -n 's/^inside //p' "$F")" rustc +$TC --edition 2021 --crate-type lib --emit metadata -o "$B/replay/driver.rmeta" "$V/search/inmac/driver.rs" --extern inmac="$B/inmac-$C/debug/libinmac.so" || R=$?
  cat "$B/replay/outcome" 2>/dev/null || R=1
  grep -q ^FOUND "$B/replay/outcome" 2>/dev/null && R=1
  exit $R;;
esac
case $C in A) RF="--cfg procmacro2_semver_exempt"; FE=spans,exempt;; B) RF=""; FE=pm,loc,spans;; C) RF=""; FE=pm;; esac
(cd "$V/tools/vx" && cargo build --offline -q --release --target-dir "$B/vx")
mkdir -p "$B/replay"
"$B/vx/release/vx" --exec "$B/replay/oracle.rs" "$V/spec/text.rs" "$V/spec/pos.rs" "$V/spec/lex.rs" "$V/spec/value.rs" "$V/spec/show.rs"
(cd "$V/search" && RUSTFLAGS="$RF" VX_ORACLE="$B/replay/oracle.rs" cargo build --offline -q --release --features $FE --target-dir "$B/search-$C")
"$B/search-$C/release/search" replay "$F" "$P"
