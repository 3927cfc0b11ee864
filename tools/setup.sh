#!/bin/bash
# Checks the tools are there; everything else is compiled by each check.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
javac -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import torch, scipy, einops, backpack"
mkdir -p evidence
echo ready
