"""Nothing to build: check that the tools the checks need are there."""
import os, subprocess, sys
py = '/opt/venv/bin/python'
r = subprocess.run([py if os.path.exists(py) else sys.executable, '-c',
                    "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
                    "import z3, numpy, h5py, pandas, xarray; print('z3', z3.get_version_string())"])
sys.exit(r.returncode)
