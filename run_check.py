#!/opt/vp/venv/bin/python
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.harness import main
if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
