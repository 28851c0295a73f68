#!/bin/bash
# usage: check.sh PROPERTY quick|thorough      builds the simulator from /repo's working tree and runs one check
#        check.sh replay FILE                  replays a recorded violation
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export SIM_VERIF="$here" VERIF_SEED="${VERIF_SEED:-1}"
export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=2:handle_abort=0:symbolize=1"
export ASAN_SYMBOLIZER_PATH="$(command -v llvm-symbolizer-18 || command -v llvm-symbolizer || true)"
exe="$(python3 "$here/tools/build.py" asan)" || { echo "check error: build failed" >&2; exit 2; }
if [ "$1" = replay ]; then exec "$exe" replay "$2"; fi
exec "$exe" check "$1" "${2:-quick}"
