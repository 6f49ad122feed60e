#!/bin/bash
# Builds everything once.
. "$(dirname "$0")/lib.sh"
build_libmon && build_climon
