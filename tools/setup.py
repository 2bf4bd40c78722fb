"""setup: nothing to build; checks that the two interpreters are there"""
import subprocess, sys
for py, mods in (('/opt/veriftools/pyvenv/bin/python', 'z3'), ('/opt/venv/bin/python', 'numpy, dask, zarr, xarray')):
    subprocess.run([py, '-c', 'import ' + mods], check=True)
