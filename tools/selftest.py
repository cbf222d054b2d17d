"""setup: everything the checks need is there (nothing is built), and the
numpy model agrees with the installed numpy"""
import os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
code = ("import sys; sys.path.insert(0, %r); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
        "import z3, numpy, matplotlib; import dv.symvc, dv.concvc; print('z3', z3.get_version_string(), 'numpy', numpy.__version__)" % HERE)
rc = subprocess.call(["/opt/venv/bin/python", "-B", "-c", code])
sys.exit(rc or subprocess.call([sys.executable, "-B", os.path.join(HERE, "tools", "shimcheck.py")]))
