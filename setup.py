#!/usr/bin/env python3
"""Nothing to install: every check compiles its harness from /repo's working tree.
This only verifies that the compiler is there."""
import subprocess, sys
r = subprocess.run(['clang++', '--version'], stdout=subprocess.PIPE)
print(r.stdout.decode().splitlines()[0])
sys.exit(r.returncode)
