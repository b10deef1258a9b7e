#!/bin/bash
# Compiles the library, and only the library, with a call at every edge of its
# control flow graph, so that its steps can be counted.
case " $* " in
*" --crate-name wavefront_obj "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
esac
exec "$@"
