#!/bin/bash
# nothing to build: the verifier is Python (python3-vt: z3, numpy, mpmath) and clang-18; check that they are there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "
import z3, numpy, mpmath
import agv.run, agv.build, subprocess
subprocess.run([agv.build.CLANG, '--version'], check=True, stdout=subprocess.DEVNULL)
print('setup ok: z3', z3.get_version_string())"
