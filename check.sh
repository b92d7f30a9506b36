#!/bin/bash
# usage: check.sh <property id> [--case N]   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_DIR="$PWD"
mkdir -p evidence
id=$1; shift
case "$id" in
  C01|C02|C03) bin=bj_text;;
  C04) bin=bj_pipe;;
  C05) bin=bj_err;;
  C06|C07|C08) bin=bj_print;;
  C09|C10|C11|C12) bin=bj_valid;;
  C13|C14|C15|C16|C17|C18|C25) bin=bj_oper;;
  C19|C20) bin=bj_comp;;
  C21|C22|C23) bin=bj_vis;;
  C24) bin=bj_tgen;;
  C26) bin=bj_san;;
  *) echo "unknown property $id"; exit 2;;
esac
log=evidence/.build-$id.log
if ! (cd harness && cargo build --offline --bin $bin) >"$log" 2>&1; then
  grep -E "^error" -A12 "$log" | head -60; tail -5 "$log"
  echo "BUILD FAILED for $id"; exit 2
fi
exec "harness/target/debug/$bin" "$id" "$@"
