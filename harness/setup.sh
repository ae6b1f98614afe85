#!/bin/bash
# Builds the harness once, so that the build cache is warm; every check builds again.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$t"' EXIT
bash "$here/run.sh" build "$t/h"
