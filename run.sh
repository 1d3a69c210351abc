#!/bin/bash
# python with the tree under test (R, default /repo) first on the path
exec env PYTHONPATH="${R:-/repo}:/opt/venv/lib/python3.12/site-packages:/verif" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 python3-vt "$@"
