"""setup_cmd: nothing is built; checks that the interpreters the checks need are there."""
import subprocess
import sys

ok = subprocess.call(['python3-vt', '-c', 'import z3, numpy']) == 0
ok = ok and subprocess.call(['bash', '-c', 'source /opt/vp/env.sh; /opt/venv/bin/python -W ignore -c "import numpy, pennylane"']) == 0
sys.exit(0 if ok else 1)
