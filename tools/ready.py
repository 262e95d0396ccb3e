"""Nothing to build: checks that the interpreter and the libraries the simulator needs are there."""
import subprocess
import sys

sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", "import numpy, torch, jax, pydot, networkx, sys; "
                          "assert hasattr(sys, 'monitoring'); print('ready')"]))
