#!/bin/bash
# Builds the code under test, and only that, with edge callbacks (see src/cov.rs).
p=
for a in "$@"; do
    if [ "$p" = --crate-name ] && [ "$a" = jotdown ]; then
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    fi
    p="$a"
done
exec "$@"
