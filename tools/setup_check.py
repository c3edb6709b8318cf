"""Nothing to build: checks that the solver and libraries are present."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy
import scipy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy',
      scipy.__version__)
