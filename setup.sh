#!/bin/bash
# Nothing to build: the checks load plycutter from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/venv/bin/python -c 'import numpy, trimesh, ezdxf, shapely, gmpy2, pyrsistent'
