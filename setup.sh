#!/bin/sh
# builds the harness, and checks that the tools are there
cd "$(dirname "$0")/harness" && RUSTUP_TOOLCHAIN=1.95.0 cargo build --offline --quiet && command -v java >/dev/null && command -v python3 >/dev/null
