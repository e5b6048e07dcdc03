#!/bin/bash
# Nothing is downloaded or installed: checks build what they need from /repo when they run.
set -e
cd "$(dirname "$0")"
command -v g++ >/dev/null && command -v python3 >/dev/null
python3 -m py_compile run_check.py tools/gen_manifest.py
python3 -c 'import json; json.load(open("MANIFEST.json")); json.load(open("harness/config.json"))'
rm -rf __pycache__ tools/__pycache__
