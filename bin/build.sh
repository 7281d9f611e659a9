# Sourced: build_mc OUT PROP builds OUT/mc, the explorer for PROP, against the library's working tree. For C17 the
# library is a copy with scheduling points, and there is a second program with the race detector (MC_RACE names it).
build_mc() {
  local out=$1 prop=$2 mod='' repo=${VERIF_REPO:-/repo}
  cd "$VERIF/mc" || return 2
  if [ -n "$VERIF_REPO" ]; then sed "s#=> /repo#=> $repo#" go.mod > "$out/go.mod"; mod="-modfile=$out/go.mod"; fi
  if [ "$prop" = C17 ]; then
    if go build -o "$out/instr" ./cmd/instr && "$out/instr" -repo "$repo" -out "$out/repo" 2> "$out/instr.log" &&
       sed "s#=> /repo#=> $out/repo#" go.mod > "$out/go17.mod" && go build -modfile="$out/go17.mod" -o "$out/mc" ./cmd/mc 2>> "$out/instr.log"; then
      mod="-modfile=$out/go17.mod"
    else echo "note: the library could not be given scheduling points: $(tail -n 5 "$out/instr.log")" >&2; fi
    if CGO_ENABLED=1 go build -race $mod -o "$out/mc-race" ./cmd/mc 2>> "$out/instr.log"; then export MC_RACE=$out/mc-race
    else echo "note: no build with the race detector: $(tail -n 3 "$out/instr.log")" >&2; fi
  fi
  go build $mod -o "$out/mc" ./cmd/mc || { echo "build of the harness failed" >&2; return 2; }
}
