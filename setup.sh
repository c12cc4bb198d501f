#!/bin/bash
# Builds the harness once, which warms the Go build cache; every check builds
# again from /repo's current tree.
exec bash "$(dirname "$0")/run.sh" --build
