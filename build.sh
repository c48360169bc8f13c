#!/bin/bash
# build.sh DIR [sched] : builds DIR/mc (order controlled through an overlay of
# instrumented copies) and DIR/mcs (schedule controlled) from /repo's working tree.
set -u
cd "$(dirname "$0")/mc" || exit 2
. ../env.sh
out=$1
go build -o "$out/vinstr" ./cmd/vinstr || exit 2

# over KIND OVERLAY BINARY : builds with the overlay; an instrumented file that does
# not compile is left as it is in the source.
over() {
  for _ in 1 2 3 4 5 6 7 8; do
    go build -ldflags "-X verif.local/vmc/vsched.Built=$1" -overlay "$2" -o "$3" ./cmd/mc 2>"$out/build.log" && return 0
    "$out/vinstr" -drop "$2" "$out/build.log" >&2 || return 1
  done
  return 1
}

if "$out/vinstr" -out "$out/ov" ./cmd/mc >"$out/vinstr.log" 2>&1 && over order "$out/ov/overlay.json" "$out/mc"; then
  :
else
  echo "note: building without instrumentation" >&2
  tail -n 5 "$out/vinstr.log" "$out/build.log" >&2
  go build -o "$out/mc" ./cmd/mc || exit 2
fi
if [ "${2:-}" = sched ]; then
  "$out/vinstr" -out "$out/ovs" -points "/flow,/instance,/model/simple,/support,/ondemand" ./cmd/mc >>"$out/vinstr.log" 2>&1 &&
  over sched "$out/ovs/overlay.json" "$out/mcs" || cp "$out/mc" "$out/mcs"
fi
