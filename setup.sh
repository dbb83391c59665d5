#!/bin/bash
# builds the IR dump tool; everything else is rebuilt by each check from /repo
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
exec python3-vt -c "import sys; sys.path[:0]=['ipv']; import ir; print(ir.ensure_tool())"
