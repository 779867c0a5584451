#!/bin/bash
# Compiler wrapper used by the checks (CC=.../cc.sh): same compiler, same flags except the
# optimisation level and debug info (a fifth of the time), and a per-run cache keyed on the
# generated source, every header it can include, and the flags.
unset LD_PRELOAD
out= ; src= ; args=() ; incs=()
while [ $# -gt 0 ]; do
  case "$1" in
    -o) out=$2; shift ;;
    -g) [ -n "$VP_CC_G" ] && args+=(-g) ;;
    -O3) args+=("${VP_CC_OPT:--O0}") ;;
    *.c) src=$1 ;;
    -I*) args+=("$1"); incs+=("${1#-I}") ;;
    *) args+=("$1") ;;
  esac
  shift
done
read -ra extra <<< "$VP_CC_EXTRA"
if [ -n "$VP_CC_CACHE" ] && [ -n "$src" ] && [ -n "$out" ]; then
  mkdir -p "$VP_CC_CACHE"
  hdrs=()
  for d in "${incs[@]}"; do [ "$d" = . ] && continue; for h in "$d"/*.h; do [ -e "$h" ] && hdrs+=("$h"); done; done
  key=$( { cat "$src" "${hdrs[@]}"; echo "${args[@]}" "${extra[@]}"; } | sha1sum | cut -c1-40)
  if [ ! -e "$VP_CC_CACHE/$key.so" ]; then
    gcc "${args[@]}" "${extra[@]}" -o "$VP_CC_CACHE/$key.$$" "$src" -lm || exit $?
    mv "$VP_CC_CACHE/$key.$$" "$VP_CC_CACHE/$key.so"
  fi
  exec cp "$VP_CC_CACHE/$key.so" "$out"
fi
exec gcc "${args[@]}" "${extra[@]}" -o "$out" "$src" -lm
