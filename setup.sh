#!/bin/bash
# builds the AST front end; nothing else is needed
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
tool/build.sh
echo "front end built"
