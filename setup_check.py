"""setup: nothing to build; checks that the interpreters and solvers the checks use are present"""
import subprocess, os, sys
H = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3; print('z3', z3.get_version_string())"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy; print(numpy.__version__, scipy.__version__)"], check=True)
