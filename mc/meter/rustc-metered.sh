#!/bin/bash
# rustc wrapper of the metered build: the crates that do the program's work count the blocks they run
case " $* " in
*" --crate-name token_bonding_curve "* | *" --crate-name spl_math "* | *" --crate-name uint "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
