#!/bin/bash
# developer helper: build the harness
. /verif/env.sh; cd /verif/harness && cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-60}
