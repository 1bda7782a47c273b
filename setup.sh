#!/bin/bash
# Checks that the tools are there and that the harness crate resolves offline; every check builds what it needs itself.
set -e
cd "$(dirname "$0")/harness"
cargo kani --version
verus --version | head -3
cargo metadata --offline --format-version 1 > /dev/null
