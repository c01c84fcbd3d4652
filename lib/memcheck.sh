#!/bin/sh
# runs a worker under Memcheck; only undefined results and bad accesses count
d=$(dirname "$0")
exec valgrind -q --suppressions="$d/memcheck.supp" --exit-on-first-error=yes \
  --error-exitcode=99 --partial-loads-ok=yes --num-callers=30 \
  --gen-suppressions=no "$@"
