#!/bin/bash
# Builds the symbolic-execution engine (offline, from the committed files) and warms the build cache.
cd "$(dirname "$0")" && exec ./run.sh -selftest
