import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import main   # noqa

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
