#!/bin/bash
# developer helper: compact output
VERIF_VERBOSE=1 VERIF_CASE="$2" $(dirname "$0")/run.sh $1 ${3:-quick} 2>&1 | cut -c1-${W:-230} | grep -v "^  holds " | head -${N:-14}
