"""Setup: nothing to build; confirm that the interpreter, solver and /repo's dependencies load."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.sym import z3
import numpy
import pysat
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'pysat', pysat.__version__)
