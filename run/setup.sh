#!/bin/bash
# builds the harness against /repo's working tree and checks that the specification parses
set -e
cd "$(dirname "$0")/.."
cargo build --offline --release --manifest-path harness/Cargo.toml
cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY BTrace.tla > /dev/null
