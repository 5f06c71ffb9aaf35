#!/bin/bash
# Compiles the small-scope state machines of the specification to TLA+ for TLC.
# Run by hand after a change of spec/*_mc.qnt; the results in spec/tlc are committed.
# usage: tools/compile_tla.sh [main module ...]
set -e
cd "$(dirname "$0")/../spec"
trap 'rm -rf "$PWD/_apalache-out" "$PWD/tmp"' EXIT
mods=("$@")
if [ ${#mods[@]} = 0 ]; then
  mods=($(grep -ho '^module [a-z_0-9]*_mc[a-z0-9]* ' *_mc.qnt | awk '{print $2}' | grep -v '_mc$'))
fi
for m in "${mods[@]}"; do
  src=$(echo "$m" | sed 's/_mc.*$/_mc/')
  quint compile --target tlaplus --main "$m" --invariant inv "$src.qnt" 2>/dev/null \
    | sed -n '/---- MODULE/,$p' | sed "s/${m}_${src}_//g" > "tlc/$m.tla.new"
  grep -q q_step "tlc/$m.tla.new"
  mv "tlc/$m.tla.new" "tlc/$m.tla"
  echo "$m"
done
