#!/bin/bash
# Checks that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")/.."
command -v gcc java python3 >/dev/null
mkdir -p evidence
echo setup ok
