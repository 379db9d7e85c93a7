#!/bin/sh
# Adds basic-block callbacks (preemption points and edge coverage) to the crates of the system under
# test, and the cfg that enables the guarded hooks. Everything else is compiled as it is.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  xi_rpc|xi_trace|simmono)
    # these are the crates with lock-free shared state: preempt at loads and stores too
    exec "$rustc" "$@" --cfg xi_sim -Cembed-bitcode=no -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  xi_core_lib|xi_plugin_lib|xi_rope|xi_lsp_lib)
    exec "$rustc" "$@" --cfg xi_sim -Cembed-bitcode=no -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
