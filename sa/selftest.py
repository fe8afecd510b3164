"""Setup: confirm the analyser can parse the package under analysis."""
import os
import sys
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from source import Source   # noqa

s = Source()
print(f'{len(s.modules)} modules parsed')
sys.exit(0 if s.modules else 2)
