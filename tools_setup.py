"""setup_cmd: nothing to build; make sure the engine's tools are there."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import solve
subprocess.check_call(['clang++', '--version'], stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
print('ready')
