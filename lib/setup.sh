#!/bin/bash
# builds the MIR fact extractor and warms the dependency metadata
set -e
cd "$(dirname "$0")/.."
mkdir -p .cache evidence
lib/extract.sh "$PWD/.cache/warm"
ls .cache/warm | wc -l
