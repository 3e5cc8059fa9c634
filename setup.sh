#!/bin/bash
# nothing is kept between runs: every check builds what it needs; this only checks that the tools are there
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import z3, sys; print("z3", z3.get_version_string())' && test -d /opt/vp/ws/target/debug/deps
