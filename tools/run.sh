#!/bin/bash
# tools/run.sh SCRIPT ARGS: a script with the built package on its path (FLAVOUR=plain)
cd "$(dirname "$0")/.."
exec python3 - "$@" <<'P'
import os, sys, subprocess
sys.path.insert(0, os.getcwd())
from vlib import build as B
dest, env = B.build(os.environ.get('FLAVOUR', 'plain'))
sys.exit(subprocess.call(B.python_cmd(dest, *sys.argv[1:]), env=B.python_env(env)))
P
