#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
exec python3 "$here/rundemo.py" "$(pwd)"
