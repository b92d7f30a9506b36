#!/bin/bash
# developer helper: t.sh BIN CASES ids... : run and summarise signatures
. /verif/env.sh; export VERIF_DIR=/verif; b=$1; export VERIF_CASES=$2; shift 2
for p in "$@"; do rm -f /verif/evidence/replay/$p-*; timeout 600 /verif/harness/target/debug/$b $p >/tmp/o.$p 2>&1; grep -aE "harness panic at|produced|evaluations|disagr|KNOWN|INCON|^  not" /tmp/o.$p | cut -c1-300| sort | uniq -c | head; grep -ah ^signature /verif/evidence/replay/$p-* 2>/dev/null | sort | uniq -c; done
