#!/bin/bash
# RUSTC_WRAPPER that compiles without the cfg named in VERIF_DROP_CFG.
rustc="$1"; shift
args=()
while [ $# -gt 0 ]; do
  if [ "$1" = "--cfg" ] && [ "$2" = "$VERIF_DROP_CFG" ]; then shift 2; continue; fi
  args+=("$1"); shift
done
exec "$rustc" "${args[@]}"
