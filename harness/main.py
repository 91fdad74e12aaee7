import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
sys.exit(core.main(sys.argv[1:]))
