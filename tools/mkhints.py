"""Record which back end discharged each slow obligation (order of attempts only; nothing is cached).
usage: mkhints.py ID..."""
import os
import subprocess
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for pid in sys.argv[1:]:
    subprocess.run(['python3-vt', os.path.join(H, 'check.py'), pid], env=dict(os.environ, PYVC_WRITE_HINTS='1'))
