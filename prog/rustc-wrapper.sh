#!/bin/bash
# cargo calls this as: rustc-wrapper.sh <rustc> <args...>. The program's own
# crates and the pinocchio crates are compiled as they ship (target_os =
# "solana" code paths); everything else is compiled for the host.
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then crate="$a"; break; fi
  prev="$a"
done
case "$crate" in
  pinocchio|pinocchio_system|pinocchio_pubkey|pinocchio_token|pinocchio_log|swig|swig_state|swig_assertions|swig_compact_instructions)
    exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags -C target-feature=-sse,-sse2 ;;
esac
exec "$rustc" "$@"
