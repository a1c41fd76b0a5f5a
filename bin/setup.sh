#!/bin/bash
# Warms the Go build cache by building the checker once.
cd "$(dirname "$0")/.." || exit 3
set -e
bin/build.sh build/setup
rm -rf "$PWD/build/setup"
