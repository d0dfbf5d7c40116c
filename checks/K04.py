import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common
import K03

if __name__ == '__main__':
    common.run('K04', "symbolic execution of the LLVM IR of the Stokes spectrometer kernels; polynomial equality decided by z3", K03.body_for(True))
