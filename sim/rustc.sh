#!/bin/bash
# rustc wrapper: the library and the generated call sites get a hook at every edge of their control
# flow and before every store, which the simulator uses as scheduling points and to measure coverage
case " $* " in
*" --crate-name sscanf "* | *" --crate-name sites_dbg "* | *" --crate-name sites_rel "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$@"
