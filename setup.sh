#!/bin/bash
# Nothing to build: the explorer is Python. Check that the interpreter and the package can be used.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; sys.path[:0] = ["/repo", "."]; import creole, mc.engine, docutils, markdown, textile'
